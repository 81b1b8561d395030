//! C19: the command line tools, over the product of options, paths, existing files and kinds of
//! specification
use crate::ctx::Ctx;
use crate::gen::{generate, Opts, Output, Which};
use crate::util::*;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

/// the two tools, built from the current tree by the check script
pub fn binaries() -> [PathBuf; 2] {
    let v = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let b = v.join("target/cli/debug");
    [b.join("lalr1_gen"), b.join("alalr1_gen")]
}

/// every file and directory below a directory, with contents (None for directories)
pub fn tree(dir: &Path) -> BTreeMap<Vec<u8>, Option<Vec<u8>>> {
    fn rec(d: &Path, pre: &Path, out: &mut BTreeMap<Vec<u8>, Option<Vec<u8>>>) {
        let Ok(it) = std::fs::read_dir(d) else { return };
        for e in it.flatten() {
            let p = e.path();
            let rel = pre.join(e.file_name());
            let k = rel.as_os_str().as_bytes().to_vec();
            match std::fs::symlink_metadata(&p) {
                Ok(m) if m.is_dir() => {
                    out.insert(k, None);
                    rec(&p, &rel, out);
                }
                Ok(m) if m.file_type().is_symlink() => {
                    let t = std::fs::read_link(&p).unwrap_or_default();
                    out.insert(k, Some(t.as_os_str().as_bytes().to_vec()));
                }
                _ => {
                    out.insert(k, Some(std::fs::read(&p).unwrap_or_default()));
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    rec(dir, Path::new(""), &mut out);
    out
}

/// the last extension of the file name replaced (by definition, on bytes)
pub fn changed(path: &[u8], ext: &str) -> Vec<u8> {
    let start = path.iter().rposition(|b| *b == b'/').map(|i| i + 1).unwrap_or(0);
    let name = &path[start..];
    let cut = match name.iter().rposition(|b| *b == b'.') {
        Some(0) | None => name.len(),
        Some(i) => i,
    };
    let mut v = path[..start + cut].to_vec();
    v.push(b'.');
    v.extend_from_slice(ext.as_bytes());
    v
}

const HEAD: &str = "%attr Attr\n%target Prs\n";
const TOKS: &str = "%%\n%token TX \"x\"\n%token TY \"y\"\n%token TN (n+)\n%skip (\\s+)\n%%\n";

/// name, text (None: there is no such file), whether it is a directory
pub fn kinds() -> Vec<(&'static str, Option<Vec<u8>>)> {
    let t = |decl: &str, rules: &str| Some(format!("{HEAD}{decl}{TOKS}{rules}").into_bytes());
    vec![
        ("fine", t("", "S: TX S TY !{ $$ = f($1); !} | TN .\n")),
        ("with warnings", t("", "S: TX .\nUnused: TY .\n")),
        ("shift/reduce conflicts", t("", "S: TX S | TX S TY S | TN .\n")),
        ("reduce/reduce conflicts", t("", "S: A | B .\nA: TX .\nB: TX .\n")),
        ("both conflicts", t("", "S: TX S | TX S TY S | A | B .\nA: TN .\nB: TN .\n")),
        ("declared conflicts", t("%shift_reduce 1\n", "S: TX S | TX S TY S | TN .\n")),
        ("wrongly declared conflicts", t("%reduce_reduce 3\n", "S: A | B .\nA: TX .\nB: TX .\n")),
        ("conflicts declared but absent", t("%shift_reduce 1\n", "S: TX S TY !{ $$ = f($1); !} | TN .\n")),
        ("an undefined symbol", t("", "S: TX Undef .\n")),
        ("an error", t("%attr Again\n", "S: TX .\n")),
        ("no rule", t("", "")),
        ("a mistake of syntax", t("", "S: TX S TY : TN .\n")),
        ("empty", Some(vec![])),
        ("not UTF-8", Some([t("", "S: TX .\n").unwrap(), vec![b'/', b'/', 0xff, b'\n']].concat())),
        ("absent", None),
        ("a directory", None),
    ]
}

/// how the specification's path is given ("@" stands for the scratch directory)
pub const SPECS: &[&str] = &[
    "s.laps",
    "noext",
    "s.tar.laps",
    ".hid",
    ".hid.laps",
    "dot.",
    "sub/s.laps",
    "d.ir/noext",
    "d.ir/s.laps",
    "./s.laps",
    "sub/../s.laps",
    "@/s.laps",
    "é ü.laps",
    "a b.laps",
    "s.rs",
    "s.states",
    "s.laps.rs",
    "-- -dash.laps",
];

/// the -o argument ("" for none)
const OUTS: &[&str] = &["", "o.rs", "o.x.y", "o", "sub/o.rs", "@/d.ir/o", "none/o.rs", "o.states", "é o.rs"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum There {
    Nothing,
    File,
    Report,
    Both,
    Dir,
    ReportDir,
}

struct Conf<'a> {
    which: usize,
    kind: &'a (&'static str, Option<Vec<u8>>),
    spec: Vec<u8>,
    /// given after "--"
    dashes: bool,
    out: Option<Vec<u8>>,
    there: There,
    /// 0: none, 1: -f, 2: --force, 3: -f at the end
    force: u8,
    isr: bool,
    irr: bool,
}

impl Conf<'_> {
    fn show(&self) -> String {
        format!(
            "{} spec {:?} ({}) out {:?} existing {:?} force {} ignore {} {}",
            ["lalr1_gen", "alalr1_gen"][self.which],
            String::from_utf8_lossy(&self.spec),
            self.kind.0,
            self.out.as_ref().map(|o| String::from_utf8_lossy(o).into_owned()),
            self.there,
            self.force,
            self.isr,
            self.irr
        )
    }
}

fn absolute(dir: &Path, p: &[u8]) -> PathBuf {
    dir.join(OsStr::from_bytes(p))
}

fn normal(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::CurDir => (),
            std::path::Component::ParentDir => {
                o.pop();
            }
            c => o.push(c),
        }
    }
    o
}

fn one(c: &Conf, dir: &Path, bins: &[PathBuf; 2], lib: &Result<Output, String>, st: &mut Stats) -> CheckResult {
    let d = dir.join("w");
    let _ = std::fs::remove_dir_all(&d);
    for s in ["sub", "d.ir"] {
        std::fs::create_dir_all(d.join(s)).unwrap();
    }
    std::fs::write(d.join("bystander.rs"), "bystander\n").unwrap();
    let k = c.kind;
    let spec = absolute(&d, &c.spec);
    match &k.1 {
        Some(t) => std::fs::write(&spec, t).unwrap(),
        None if k.0 == "a directory" => std::fs::create_dir_all(&spec).unwrap(),
        None => (),
    }
    let out_arg = c.out.clone().unwrap_or_else(|| changed(&c.spec, "rs"));
    let out = absolute(&d, &out_arg);
    let rep = absolute(&d, &changed(&out_arg, "states"));
    let is_spec = normal(&out) == normal(&spec);
    if !is_spec && out.parent().is_some_and(|p| p.is_dir()) {
        match c.there {
            There::Nothing => (),
            There::File => std::fs::write(&out, "old output\n").unwrap(),
            There::Report | There::ReportDir if normal(&rep) == normal(&spec) || normal(&rep) == normal(&out) => (),
            There::Report => std::fs::write(&rep, "old report\n").unwrap(),
            There::ReportDir => std::fs::create_dir_all(&rep).unwrap(),
            There::Both => {
                if normal(&rep) != normal(&spec) {
                    std::fs::write(&rep, "old report that is quite long\n".repeat(500)).unwrap();
                }
                std::fs::write(&out, "old output that is quite long\n".repeat(5000)).unwrap();
            }
            There::Dir => std::fs::create_dir_all(&out).unwrap(),
        }
    }
    let before = tree(&d);
    let mut args: Vec<OsString> = vec![];
    match c.force {
        1 => args.push("-f".into()),
        2 => args.push("--force".into()),
        _ => (),
    }
    if c.isr {
        args.push("--ignore-sr-conflicts".into());
    }
    if let Some(o) = &c.out {
        args.push(if c.which == 0 { "-o".into() } else { "--output".into() });
        args.push(if o.starts_with(b"/") { out.clone().into_os_string() } else { OsString::from_vec(o.clone()) });
    }
    if c.dashes {
        args.push("--".into());
    }
    args.push(OsString::from_vec(c.spec.clone()));
    if !c.dashes {
        if c.irr {
            args.push("--ignore-rr-conflicts".into());
        }
        if c.force == 3 {
            args.push("-f".into());
        }
    }
    let force = c.force != 0 && !(c.dashes && c.force == 3);
    let r = std::process::Command::new(&bins[c.which])
        .args(&args)
        .current_dir(&d)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .output()
        .map_err(|e| Violation::new(format!("cannot run the tool: {e}"), "", ""))?;
    let after = tree(&d);
    let err = String::from_utf8_lossy(&r.stderr).into_owned();
    st.add("transitions", 1);
    st.add("traces_validated_against_impl", 1);
    // the contract
    let exists = before.contains_key(rel(&d, &out).as_slice());
    let overwrites = normal(&rep) == normal(&spec) || normal(&rep) == normal(&out);
    let refused = exists && !force;
    let accepted = lib.is_ok() && !refused && !overwrites;
    let writable = out.parent().is_some_and(|p| p.is_dir()) && before.get(rel(&d, &out).as_slice()) != Some(&None);
    let rep_writable = before.get(rel(&d, &rep).as_slice()) != Some(&None);
    let want_ok = accepted && writable && rep_writable;
    let fail = |what: String| {
        Err(Violation::new(
            format!("{}: {what}", c.show()),
            format!("arguments: {args:?}\nstatus: {:?}\nmessages: {err}\nspecification: {}", r.status, String::from_utf8_lossy(k.1.as_deref().unwrap_or(b""))),
            "",
        ))
    };
    if r.status.success() != want_ok {
        return fail(format!("ended with {:?} but should {}", r.status, if want_ok { "succeed" } else { "fail" }));
    }
    if r.status.code().is_none() || err.contains("panicked at") {
        return fail(format!("crashed: {:?}", r.status));
    }
    let mut want = before.clone();
    if want_ok {
        st.add("successes", 1);
        let l = lib.as_ref().unwrap();
        want.insert(rel(&d, &out), Some(l.code.clone().into_bytes()));
        want.insert(rel(&d, &rep), Some(l.states.clone().into_bytes()));
    } else {
        st.add("failures", 1);
        if err.trim().is_empty() {
            return fail("failed without a message".into());
        }
        if accepted && writable && !rep_writable {
            // the parser code may have been written
            match after.get(rel(&d, &out).as_slice()) {
                Some(x) => want.insert(rel(&d, &out), x.clone()),
                None => want.remove(rel(&d, &out).as_slice()),
            };
        }
    }
    if after != want {
        let mut diffs = vec![];
        for k in want.keys().chain(after.keys()) {
            if want.get(k) != after.get(k) {
                let f = |x: Option<&Option<Vec<u8>>>| match x {
                    None => "absent".to_string(),
                    Some(None) => "a directory".into(),
                    Some(Some(b)) => format!("{} bytes {:.40?}", b.len(), String::from_utf8_lossy(b)),
                };
                diffs.push(format!("{}: {} instead of {}", String::from_utf8_lossy(k), f(after.get(k)), f(want.get(k))));
            }
        }
        return fail(format!("files are not as they should be: {}", diffs[0]));
    }
    Ok(())
}

fn rel(d: &Path, p: &Path) -> Vec<u8> {
    let n = normal(p);
    n.strip_prefix(normal(d)).unwrap_or(&n).as_os_str().as_bytes().to_vec()
}

/// whatever the number of mistakes, undefined symbols, conflicts and warnings, the status tells
/// success from failure
fn counts(ctx: &mut Ctx, bins: &[PathBuf; 2], dir: &Path) {
    for which in 0..2 {
        for n in [0usize, 1, 2, 9, 10, 99, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 768, 1024] {
            for what in ["mistakes", "undefined symbols", "shift/reduce conflicts", "reduce/reduce conflicts", "conflicts of both kinds", "warnings"] {
                ctx.case(
                    || format!("tool {which}: {n} {what}"),
                    |st| {
                        let mut t = HEAD.to_string();
                        let many = |f: &dyn Fn(usize) -> String| -> String { (0..n).map(f).collect() };
                        // tokens of which each brings one conflict
                        let toks = many(&|i| format!("%token T{i} \"t{i}\"\n"));
                        let with_tokens = |t: &str| TOKS.replace("%skip", &format!("{t}%skip"));
                        // expressions over k operators have k² conflicts
                        let mut f = String::new();
                        let mut start = "TX".to_string();
                        let mut left = n;
                        for g in 0.. {
                            let k = (left as f64).sqrt() as usize;
                            if k == 0 {
                                break;
                            }
                            left -= k * k;
                            start += &format!(" TY E{g}");
                            f += &format!("E{g}: TX {}.\n", (0..k).map(|i| format!("| E{g} T{i} E{g} ")).collect::<String>());
                        }
                        let rr = |i: usize| format!("| A{i} | B{i} ");
                        let ab = many(&|i| format!("A{i}: T{i} .\nB{i}: T{i} .\n"));
                        match what {
                            "mistakes" => {
                                t += &with_tokens(&many(&|i| format!("%token TX \"again{i}\"\n")));
                                t += "S: TX .\n";
                            }
                            "undefined symbols" => {
                                t += TOKS;
                                t += &format!("S: TX {} .\n", many(&|i| format!("U{i} ")));
                            }
                            "warnings" => {
                                t += TOKS;
                                t += "S: TX TY TN .\n";
                                t += &many(&|i| format!("Unused{i}: TY .\n"));
                            }
                            "shift/reduce conflicts" => {
                                t += &with_tokens(&toks);
                                t += &format!("S: {start} .\n{f}");
                            }
                            "reduce/reduce conflicts" => {
                                t += &with_tokens(&toks);
                                t += &format!("S: TX {}.\n{ab}", many(&rr));
                            }
                            _ => {
                                t += &with_tokens(&toks);
                                let m = n.min(60);
                                let ab: String = (0..m).map(|i| format!("A{i}: T{i} .\nB{i}: T{i} .\n")).collect();
                                t += &format!("S: {start} {}.\n{f}{ab}", (0..m).map(rr).collect::<String>());
                            }
                        }
                        let kind = (what, Some(t.clone().into_bytes()));
                        let wh = if which == 0 { Which::Plain } else { Which::Aug };
                        let o = Opts {
                            states: true,
                            ..Opts::default()
                        };
                        let lib = generate(wh, &t, "s", o, dir).map_err(|e| format!("{e:?}"));
                        let good = n == 0 || what == "warnings";
                        if lib.is_ok() != good {
                            return Err(Violation::new(
                                format!("{n} {what}: {:.200?}", lib.as_ref().map(|_| "generated")),
                                t.clone(),
                                "",
                            ));
                        }
                        if let Err(e) = &lib {
                            if n > 1 && !e.contains(&n.to_string()) {
                                st.add("other_counts", 1);
                            }
                        }
                        for there in [There::Nothing, There::Both] {
                            for force in 0..2 {
                                let c = Conf {
                                    which,
                                    kind: &kind,
                                    spec: b"s.laps".to_vec(),
                                    dashes: false,
                                    out: None,
                                    there,
                                    force,
                                    isr: false,
                                    irr: false,
                                };
                                st.add("states", 1);
                                one(&c, dir, bins, &lib, st)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let bins = binaries();
    let kinds = kinds();
    let nspec = SPECS.len();
    for which in 0..2 {
        for kind in 0..kinds.len() {
            for ign in 0..4 {
                // (a kind with text is generated by the library for comparison)
                let mut lib: Option<Result<Output, String>> = None;
                for (si, s) in SPECS.iter().enumerate() {
                    for out in OUTS {
                        // (in the quick tier, waivers only with the plainest path or no -o)
                        if !ctx.thorough() && ign != 0 && si != 0 && !out.is_empty() {
                            continue;
                        }
                        let (dashes, s) = match s.strip_prefix("-- ") {
                            Some(r) => (true, r),
                            None => (false, *s),
                        };
                        if !ctx.mine() {
                            ctx.skip_case();
                            continue;
                        }
                        let w = dir.join("w");
                        let at = |x: &str| x.replace('@', &w.to_string_lossy()).into_bytes();
                        let (isr, irr) = (ign & 1 != 0, ign & 2 != 0);
                        let o = Opts {
                            ign_sr: isr,
                            // (an option after "--" would be an argument)
                            ign_rr: irr && !dashes,
                            states: true,
                        };
                        let wh = if which == 0 { Which::Plain } else { Which::Aug };
                        let l = if dashes || lib.is_none() {
                            match &kinds[kind].1 {
                                Some(t) => match String::from_utf8(t.clone()) {
                                    Ok(t) => generate(wh, &t, "s", o, &dir).map_err(|e| format!("{e:?}")),
                                    Err(_) => Err("not UTF-8".into()),
                                },
                                None => Err("no file".into()),
                            }
                        } else {
                            lib.clone().unwrap()
                        };
                        if !dashes {
                            lib = Some(l.clone());
                        }
                        let theres: &[There] =
                            &[There::Nothing, There::File, There::Report, There::Both, There::Dir, There::ReportDir];
                        let (bins, dir) = (&bins, &dir);
                        ctx.case(
                            || format!("tool {which} specification {:?} as {s:?} to {out:?} ignoring {ign}", kinds[kind].0),
                            |st| {
                                for there in theres {
                                    for force in 0..4 {
                                        if force == 3 && dashes {
                                            continue;
                                        }
                                        if force >= 2 && (*there != There::File || (si > 0 && si < nspec - 1)) {
                                            continue;
                                        }
                                        let c = Conf {
                                            which,
                                            kind: &kinds[kind],
                                            spec: at(s),
                                            dashes,
                                            out: if out.is_empty() { None } else { Some(at(out)) },
                                            there: *there,
                                            force,
                                            isr,
                                            irr,
                                        };
                                        st.add("states", 1);
                                        st.sample(|| c.show());
                                        one(&c, dir, bins, &l, st)?;
                                    }
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
        // names that are not UTF-8; paths without a file name; wrong usage
        let (bins, dir) = (&bins, &dir);
        ctx.case(
            || format!("tool {which}: names that are not UTF-8"),
            |st| {
                for kind in 0..kinds.len() {
                    let wh = if which == 0 { Which::Plain } else { Which::Aug };
                    let lib = match &kinds[kind].1 {
                        Some(t) => match String::from_utf8(t.clone()) {
                            Ok(t) => generate(
                                wh,
                                &t,
                                "s",
                                Opts {
                                    states: true,
                                    ..Opts::default()
                                },
                                dir,
                            )
                            .map_err(|e| format!("{e:?}")),
                            Err(_) => Err("not UTF-8".into()),
                        },
                        None => Err("no file".into()),
                    };
                    for there in [There::Nothing, There::File, There::Report, There::Dir] {
                        for force in 0..2 {
                            let c = Conf {
                                which,
                                kind: &kinds[kind],
                                spec: b"n\xffm\xfe.laps".to_vec(),
                                dashes: false,
                                out: None,
                                there,
                                force,
                                isr: false,
                                irr: false,
                            };
                            st.add("states", 1);
                            one(&c, dir, bins, &lib, st)?;
                        }
                    }
                }
                Ok(())
            },
        );
        for args in [
            vec![],
            vec!["."],
            vec![".."],
            vec!["/"],
            vec!["-f", "."],
            vec!["-f", ".."],
            vec!["-f", "/"],
            vec![""],
            vec!["-f", ""],
            vec!["-f", "-o", ".", "fine.laps"],
            vec!["-f", "-o", "..", "fine.laps"],
            vec!["-f", "-o", "", "fine.laps"],
            vec!["-f", "-o", "sub/..", "fine.laps"],
            vec!["-f", "-o", "sub/", "fine.laps"],
            vec!["-o", "new/", "fine.laps"],
            vec!["-o", "o.rs"],
            vec!["-o"],
            vec!["--nonsense", "fine.laps"],
            vec!["fine.laps", "fine2.laps"],
            vec!["fine.laps/x"],
            vec!["-o", "fine.laps/x", "fine.laps"],
        ] {
            ctx.case(
                || format!("tool {which} called with {args:?}"),
                |st| {
                    let d = dir.join("w");
                    let _ = std::fs::remove_dir_all(&d);
                    std::fs::create_dir_all(d.join("sub")).unwrap();
                    std::fs::write(d.join("fine.laps"), kinds[0].1.as_ref().unwrap()).unwrap();
                    std::fs::write(d.join("fine2.laps"), kinds[0].1.as_ref().unwrap()).unwrap();
                    let before = tree(&d);
                    let r = std::process::Command::new(&bins[which])
                        .args(&args)
                        .current_dir(&d)
                        .stdin(std::process::Stdio::null())
                        .output()
                        .map_err(|e| Violation::new(format!("cannot run the tool: {e}"), "", ""))?;
                    st.add("states", 1);
                    st.add("transitions", 1);
                    st.add("traces_validated_against_impl", 1);
                    let err = String::from_utf8_lossy(&r.stderr);
                    let what = if r.status.success() {
                        "succeeds"
                    } else if r.status.code().is_none() || err.contains("panicked at") {
                        "crashes"
                    } else if err.trim().is_empty() {
                        "fails without a message"
                    } else if tree(&d) != before {
                        "changes files"
                    } else {
                        return Ok(());
                    };
                    Err(Violation::new(format!("called with {args:?} the tool {what}"), err.to_string(), ""))
                },
            );
        }
    }
    counts(ctx, &bins, &dir);
    // reading the specification, or a file it injects, fails at each read or open
    let inj = "%attr Attr\n%target Prs\n%%\n%token TX \"x\"\n%inject \"more.laps\".\n%%\nS: TX S | TY .\n%inject \"rules.laps\".\n";
    let texts: Vec<String> = vec![
        crate::checks::c18::SPECS[0].into(),
        crate::checks::c18::SPECS[1].into(),
        inj.into(),
    ];
    for which in 0..2 {
        for (ti, text) in texts.iter().enumerate() {
            for (op, kind, soft) in [
                ('r', "short", true),
                ('r', "short+", true),
                ('r', "4", true),
                ('r', "5", false),
                ('r', "5+", false),
                ('r', "21", false),
                ('i', "4", true),
                ('i', "13", false),
                ('i', "2", false),
                ('i', "24", false),
                ('i', "5+", false),
            ] {
                for existing in [false, true] {
                    let (dir, bins) = (&dir, &bins);
                    ctx.case(
                        || format!("tool {which} specification {ti}: {op} faults {kind}"),
                        |st| {
                            let d = dir.join("w");
                            let log = dir.join("rlog");
                            let mut whole: Option<(Vec<u8>, Vec<u8>)> = None;
                            for k in 0..400 {
                                let _ = std::fs::remove_dir_all(&d);
                                let _ = std::fs::remove_file(&log);
                                std::fs::create_dir_all(&d).unwrap();
                                std::fs::write(d.join("s.laps"), text).unwrap();
                                std::fs::write(d.join("more.laps"), "%token TY (y+)\n").unwrap();
                                std::fs::write(d.join("rules.laps"), "A: TX .\n").unwrap();
                                if existing {
                                    std::fs::write(d.join("s.rs"), "old").unwrap();
                                }
                                let before = tree(&d);
                                let f = if k == 0 { "x:1:1".to_string() } else { format!("{op}:{k}:{kind}") };
                                let mut c = std::process::Command::new(&bins[which]);
                                c.args(if existing { vec!["-f", "s.laps"] } else { vec!["s.laps"] });
                                c.current_dir(&d).stdin(std::process::Stdio::null());
                                c.env("LD_PRELOAD", crate::checks::c20::shim()).env("FAULT_DIR", &d).env("FAULT_LOG", &log).env("FAULT", &f);
                                let r = c.output().map_err(|e| Violation::new(format!("cannot run the tool: {e}"), "", ""))?;
                                let hit = std::fs::read(&log).map(|l| !l.is_empty()).unwrap_or(false);
                                let err = String::from_utf8_lossy(&r.stderr);
                                st.add("states", 1);
                                st.add("transitions", 1);
                                st.add("read_faults", hit as u64);
                                st.add("traces_validated_against_impl", 1);
                                let got = (
                                    std::fs::read(d.join("s.rs")).unwrap_or_default(),
                                    std::fs::read(d.join("s.states")).unwrap_or_default(),
                                );
                                if k == 0 {
                                    if !r.status.success() {
                                        return Err(Violation::new("fails without any fault", err.to_string(), ""));
                                    }
                                    whole = Some(got);
                                    continue;
                                }
                                if k == 1 && !hit {
                                    panic!("machinery: no {op} seen");
                                }
                                let bad = if r.status.code().is_none() || err.contains("panicked at") {
                                    "it crashed"
                                } else if r.status.success() && Some(&got) != whole.as_ref() {
                                    "success is reported but the files are not what the specification says"
                                } else if !r.status.success() && (soft || !hit) {
                                    "failure is reported although nothing failed for good"
                                } else if !r.status.success() && err.trim().is_empty() {
                                    "it failed without a message"
                                } else if !r.status.success() && tree(&d) != before {
                                    "it failed and changed files"
                                } else {
                                    ""
                                };
                                if !bad.is_empty() {
                                    return Err(Violation::new(
                                        format!("tool {which}, specification {ti}, fault {f} while reading: {bad}"),
                                        format!("status {:?}\n{err}", r.status),
                                        "",
                                    ));
                                }
                                if !hit {
                                    break;
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
}
