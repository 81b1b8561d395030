//! C20: writing that fails is not reported as success. Every write (and open) of the library's and
//! the tools' output is made to fail, in every way; every byte position is made the end of the disk.
use super::c19::binaries;
use crate::ctx::Ctx;
use crate::util::*;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn shim() -> PathBuf {
    let v = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    v.join("target/fault.so")
}

/// entry point of `mc --genfile WHICH MODE SPEC OUT`: 0 when both files are reported as written
pub fn standalone(args: &[String]) -> i32 {
    let (spec, out) = (Path::new(&args[2]), Path::new(&args[3]));
    let states = out.with_extension("states");
    macro_rules! go {
        ($lib:ident) => {{
            let text = match std::fs::read_to_string(spec) {
                Ok(t) => t,
                Err(_) => return 2,
            };
            match args[1].as_str() {
                "generator" => match $lib::ParserGenerator::try_from(text.as_str()) {
                    Err(_) => 5,
                    Ok(g) => g.write_parser_code_to_file(out).map_or(3, |_| 0),
                },
                "generator-from-file" => match $lib::ParserGenerator::new(spec) {
                    Err(_) => 5,
                    Ok(g) => g.write_parser_code_to_file(out).map_or(3, |_| 0),
                },
                m => {
                    let Ok(s) = $lib::grammar::Specification::new(&text, "s") else { return 5 };
                    let Ok(g) = $lib::grammar::Grammar::try_from((s, false, false)) else { return 5 };
                    // (the retry makes good what failed)
                    let again = m == "retry";
                    if g.write_parser_code_to_file(out).is_err() && (!again || g.write_parser_code_to_file(out).is_err()) {
                        return 3;
                    }
                    if g.write_description(&states).is_err() && (!again || g.write_description(&states).is_err()) {
                        return 4;
                    }
                    0
                }
            }
        }};
    }
    if args[0] == "lalr1" {
        go!(lalr1_lib)
    } else {
        go!(alalr1_lib)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Way {
    Tool,
    Library,
    Retry,
    Generator,
    GeneratorFromFile,
}

impl Way {
    fn report(&self) -> bool {
        matches!(self, Way::Tool | Way::Library | Way::Retry)
    }
}

struct Run {
    ok: bool,
    crashed: bool,
    message: bool,
    code: Option<Vec<u8>>,
    states: Option<Vec<u8>>,
    log: String,
    note: String,
}

#[derive(Default)]
struct Env<'a> {
    fault: &'a str,
    fsize: Option<u64>,
    force: bool,
    out: &'a str,
    cpu: bool,
}

fn exec(way: Way, which: usize, d: &Path, spec: &str, e: &Env) -> Run {
    let out = d.join(if e.out.is_empty() { "s.rs" } else { e.out });
    let log = d.join("../log");
    let _ = std::fs::remove_file(&log);
    let mut c;
    if way == Way::Tool {
        c = Command::new(&binaries()[which]);
        if e.force {
            c.arg("-f");
        }
        c.arg("-o").arg(&out).arg(d.join(spec));
    } else {
        c = Command::new(std::env::current_exe().unwrap());
        c.arg("--genfile").arg(["lalr1", "alalr1"][which]);
        c.arg(match way {
            Way::Retry => "retry",
            Way::Generator => "generator",
            Way::GeneratorFromFile => "generator-from-file",
            _ => "library",
        });
        c.arg(d.join(spec)).arg(&out);
    }
    c.current_dir(d).stdin(Stdio::null()).stdout(Stdio::null());
    if !e.fault.is_empty() {
        c.env("LD_PRELOAD", shim()).env("FAULT_DIR", d).env("FAULT_LOG", &log).env("FAULT", e.fault);
    }
    let fsize = e.fsize;
    unsafe {
        c.pre_exec(move || {
            if let Some(n) = fsize {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let r = libc::rlimit {
                    rlim_cur: n,
                    rlim_max: n,
                };
                libc::setrlimit(libc::RLIMIT_FSIZE, &r);
            }
            Ok(())
        });
    }
    let r = c.output().expect("machinery: cannot run");
    let err = String::from_utf8_lossy(&r.stderr).into_owned();
    let is_plain = |p: &Path| std::fs::metadata(p).map(|m| m.is_file()).unwrap_or(false);
    let rd = |p: &Path| if is_plain(p) { std::fs::read(p).ok() } else { None };
    Run {
        ok: r.status.success(),
        crashed: r.status.code().is_none() || err.contains("panicked at"),
        message: !err.trim().is_empty(),
        code: rd(&out),
        states: rd(&out.with_extension("states")),
        log: std::fs::read_to_string(&log).unwrap_or_default(),
        note: format!("status {:?}, messages: {err}", r.status),
    }
}

fn specs() -> Vec<(&'static str, String)> {
    let small = "%attr Attr\n%target Prs\n%%\n%token TX \"x\"\n%%\nS: TX S | .\n".to_string();
    let mid = crate::checks::c18::SPECS[1].to_string();
    let mut large = "%{\n".to_string();
    for i in 0..1500 {
        large += &format!("// line {i} of a long preamble\n");
    }
    large += "%}\n%attr Attr\n%target Prs\n%%\n%token TX \"x\"\n%token TY (y+)\n%skip (\\s+)\n%%\nS: TX S !{ ";
    for i in 0..800 {
        large += &format!("long_action({i});\n");
    }
    large += " !} | TY .\n";
    vec![("small", small), ("rich", mid), ("long", large)]
}

fn fresh(d: &Path, text: &str) {
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(d).unwrap();
    std::fs::write(d.join("s.laps"), text).unwrap();
}

struct Whole {
    code: Vec<u8>,
    states: Vec<u8>,
}

fn judge(way: Way, r: &Run, w: &Whole, soft: bool, what: &str, st: &mut Stats) -> CheckResult {
    st.add("transitions", 1);
    st.add("traces_validated_against_impl", 1);
    let complete = r.code.as_ref() == Some(&w.code) && (!way.report() || r.states.as_ref() == Some(&w.states));
    let bad = |m: &str| {
        Err(Violation::new(
            format!("{way:?}: {what}: {m}"),
            format!(
                "{}\nparser code {:?} bytes of {}, report {:?} bytes of {}",
                r.note,
                r.code.as_ref().map(|c| c.len()),
                w.code.len(),
                r.states.as_ref().map(|c| c.len()),
                w.states.len()
            ),
            "",
        ))
    };
    if r.ok {
        st.add("reported_success", 1)
    } else {
        st.add("reported_failure", 1)
    }
    if r.crashed {
        return bad("it crashed");
    }
    if r.ok && !complete {
        return bad("success is reported but the files are not complete");
    }
    if !r.ok && soft {
        return bad("failure is reported although nothing failed for good");
    }
    if !r.ok && way == Way::Tool && !r.message {
        return bad("it failed without a message");
    }
    Ok(())
}

fn whole(way: Way, which: usize, d: &Path, text: &str) -> Result<Whole, Violation> {
    fresh(d, text);
    let r = exec(way, which, d, "s.laps", &Env::default());
    if !r.ok || r.code.is_none() || (way.report() && r.states.is_none()) {
        return Err(Violation::new(format!("{way:?}: fails without any fault"), r.note, ""));
    }
    Ok(Whole {
        code: r.code.unwrap(),
        states: r.states.unwrap_or_default(),
    })
}

const ENOSPC: i32 = 28;
const EIO: i32 = 5;
const EINTR: i32 = 4;

pub fn run(ctx: &mut Ctx) {
    let dir = ctx.dir.join("f");
    let specs = specs();
    let ways = [Way::Tool, Way::Library, Way::Retry, Way::Generator, Way::GeneratorFromFile];
    // faults at every operation
    let hard: Vec<String> = [ENOSPC, EIO, 122, 27].iter().map(|e| e.to_string()).collect();
    for which in 0..2 {
        for (name, text) in &specs {
            for way in ways {
                // (kind, transient, soft)
                let mut kinds: Vec<(String, bool)> = vec![
                    ("short".into(), true),
                    (EINTR.to_string(), true),
                    (format!("{ENOSPC}+"), false),
                    (ENOSPC.to_string(), false),
                    ("zero".into(), false),
                ];
                for h in &hard[1..] {
                    if ctx.thorough() {
                        kinds.push((h.clone(), false));
                        kinds.push((format!("{h}+"), false));
                    } else {
                        kinds.push((h.clone(), false));
                    }
                }
                if !ctx.thorough() {
                    match (way, *name) {
                        (Way::Tool, "rich") => kinds.truncate(3),
                        (Way::Tool | Way::Library, "small") => (),
                        (Way::Retry, "small") => kinds = kinds[2..4].to_vec(),
                        _ => kinds = vec![kinds[0].clone(), kinds[3].clone()],
                    }
                }
                if !ctx.thorough() && *name == "rich" && way != Way::Tool {
                    continue;
                }
                for (kind, soft) in kinds {
                    for part in 1..=8 {
                    let (dir, kind) = (&dir, &kind);
                    ctx.case(
                        || format!("{way:?} of tool {which}, {name} specification: each write (from {part} in steps of 8) gets {kind}"),
                        |st| {
                            let w = whole(way, which, dir, text)?;
                            let mut k = part;
                            loop {
                                fresh(dir, text);
                                let f = format!("w:{k}:{kind}");
                                let r = exec(
                                    way,
                                    which,
                                    dir,
                                    "s.laps",
                                    &Env {
                                        fault: &f,
                                        ..Env::default()
                                    },
                                );
                                let hit = r.log.contains('!');
                                if k == 1 && !hit {
                                    panic!("machinery: no write seen; {}", r.note);
                                }
                                st.add("states", 1);
                                st.add("faults_injected", hit as u64);
                                // (what is written again after a failure may succeed)
                                let soft = soft || !hit || (way == Way::Retry && !kind.ends_with('+'));
                                judge(way, &r, &w, soft, &format!("{name} specification, fault {f}"), st)?;
                                if !hit {
                                    st.add("max_writes", k);
                                    break;
                                }
                                k += 8;
                            }
                            st.sample(|| format!("{way:?} tool {which} {name}: {k} writes with {kind}"));
                            Ok(())
                        },
                    );
                    }
                }
                // opening for writing
                for e in [13, 2, 20, 24, 28, 30, 36] {
                    let dir = &dir;
                    ctx.case(
                        || format!("{way:?} of tool {which}, {name} specification: each open for writing fails with {e}"),
                        |st| {
                            let w = whole(way, which, dir, text)?;
                            for k in 1.. {
                                fresh(dir, text);
                                let f = format!("o:{k}:{e}");
                                let r = exec(
                                    way,
                                    which,
                                    dir,
                                    "s.laps",
                                    &Env {
                                        fault: &f,
                                        ..Env::default()
                                    },
                                );
                                let hit = r.log.contains('!');
                                st.add("states", 1);
                                st.add("faults_injected", hit as u64);
                                judge(way, &r, &w, !hit || way == Way::Retry, &format!("{name} specification, fault {f}"), st)?;
                                if !hit {
                                    break;
                                }
                            }
                            Ok(())
                        },
                    );
                }
                // a short or interrupted write followed by a failing one; two failing ones (the
                // second hits what is written again)
                if way == Way::Tool || way == Way::Retry {
                    if !ctx.thorough() && (*name != "small" || way != Way::Tool) {
                        continue;
                    }
                    for first in ["short".to_string(), EINTR.to_string(), ENOSPC.to_string(), "zero".to_string()] {
                        for gap in 1..=ctx.pick(2, 6) {
                            let dir = &dir;
                            ctx.case(
                                || format!("{way:?} of tool {which}, {name} specification: {first} and {gap} later ENOSPC"),
                                |st| {
                                    let w = whole(way, which, dir, text)?;
                                    for k in 1.. {
                                        fresh(dir, text);
                                        let f = format!("w:{k}:{first},w:{}:{ENOSPC}", k + gap);
                                        let r = exec(
                                            way,
                                            which,
                                            dir,
                                            "s.laps",
                                            &Env {
                                                fault: &f,
                                                ..Env::default()
                                            },
                                        );
                                        st.add("states", 1);
                                        let hit = r.log.contains('!');
                                        st.add("faults_injected", hit as u64);
                                        judge(way, &r, &w, !hit, &format!("{name} specification, faults {f}"), st)?;
                                        if !hit {
                                            break;
                                        }
                                    }
                                    Ok(())
                                },
                            );
                        }
                    }
                }
            }
        }
    }
    // the disk ends at every byte position
    for which in 0..2 {
        for (name, text) in &specs {
            let step = match *name {
                "small" => 1,
                "rich" => ctx.pick(61, 1),
                _ => ctx.pick(4093, 31),
            };
            for way in [Way::Tool, Way::Library, Way::Generator] {
                // (the ParserGenerator calls what Library calls)
                let step = if way == Way::Generator && !ctx.thorough() { step * 7 } else { step };
                for part in 0..16u64 {
                    let dir = &dir;
                    ctx.case(
                        || format!("{way:?} of tool {which}, {name} specification: files limited to n bytes, n/{step} = {part} modulo 16"),
                        |st| {
                            let w = whole(way, which, dir, text)?;
                            let max = w.code.len().max(w.states.len()) as u64;
                            // (and around the ends of both files)
                            let mut at: Vec<u64> = (0..max / step + 1).map(|k| k * step).collect();
                            for c in [w.code.len() as u64, w.states.len() as u64] {
                                for x in c.saturating_sub(3)..c + 2 {
                                    at.push(x)
                                }
                            }
                            at.sort();
                            at.dedup();
                            for (i, n) in at.iter().enumerate() {
                                if i as u64 % 16 != part {
                                    continue;
                                }
                                fresh(dir, text);
                                let r = exec(
                                    way,
                                    which,
                                    dir,
                                    "s.laps",
                                    &Env {
                                        fsize: Some(*n),
                                        ..Env::default()
                                    },
                                );
                                st.add("states", 1);
                                st.add("byte_positions", 1);
                                let enough = *n >= if way.report() { max } else { w.code.len() as u64 };
                                judge(way, &r, &w, enough, &format!("{name} specification, files limited to {n} bytes"), st)?;
                                if !enough && r.ok {
                                    return Err(Violation::new("machinery: complete files beyond the limit", "", ""));
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // files that exist already: what success leaves behind is the new contents and nothing else
    for which in 0..2 {
        for (name, text) in &specs {
            for way in ways {
                for old in 0..8 {
                    if !ctx.thorough() && *name == "long" && old % 3 != 1 {
                        continue;
                    }
                    let dir = &dir;
                    ctx.case(
                        || format!("{way:?} of tool {which}, {name} specification: files exist already ({old}), without and with faults"),
                        |st| {
                            let w = whole(way, which, dir, text)?;
                            let before = |new: &[u8]| -> Vec<u8> {
                                let mut v = new.to_vec();
                                match old {
                                    0 => v.clear(),
                                    1 => v.extend(b"// the tail of an older file\n"),
                                    2 => v.truncate(v.len() / 2),
                                    3 => v.iter_mut().for_each(|b| *b = b'x'),
                                    4 => v = b"older line\n".repeat(v.len()),
                                    5 => v.push(b'\n'),
                                    6 => {
                                        v.pop();
                                    }
                                    _ => v = "\u{FEFF}é".repeat(v.len()).into_bytes(),
                                }
                                v
                            };
                            let prepare = || {
                                fresh(dir, text);
                                std::fs::write(dir.join("s.rs"), before(&w.code)).unwrap();
                                if way.report() {
                                    std::fs::write(dir.join("s.states"), before(&w.states)).unwrap();
                                }
                            };
                            let go = |fault: &str, fsize: Option<u64>| {
                                prepare();
                                exec(
                                    way,
                                    which,
                                    dir,
                                    "s.laps",
                                    &Env {
                                        force: true,
                                        fault,
                                        fsize,
                                        ..Env::default()
                                    },
                                )
                            };
                            let r = go("", None);
                            st.add("states", 1);
                            judge(way, &r, &w, true, &format!("{name} specification, files exist already ({old})"), st)?;
                            for kind in ["28+", "28", "short", "zero"] {
                                for k in 1.. {
                                    let f = format!("w:{k}:{kind}");
                                    let r = go(&f, None);
                                    let hit = r.log.contains('!');
                                    st.add("states", 1);
                                    st.add("faults_injected", hit as u64);
                                    let soft = kind == "short" || !hit || (way == Way::Retry && !kind.ends_with('+'));
                                    judge(way, &r, &w, soft, &format!("{name} specification, files exist already ({old}), fault {f}"), st)?;
                                    if !hit || k > 12 {
                                        break;
                                    }
                                }
                            }
                            for n in [0, 1, w.code.len() - 1, w.states.len().saturating_sub(1)] {
                                let r = go("", Some(n as u64));
                                st.add("states", 1);
                                judge(way, &r, &w, false, &format!("{name} specification, files exist already ({old}), limited to {n} bytes"), st)?;
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // real places that cannot be written
    for which in 0..2 {
        for (name, text) in &specs {
            for way in ways {
                for place in 0..9 {
                    if !way.report() && [1, 4, 5].contains(&place) {
                        continue;
                    }
                    let dir = &dir;
                    ctx.case(
                        || format!("{way:?} of tool {which}, {name} specification: unwritable place {place}"),
                        |st| {
                            let w = whole(way, which, dir, text)?;
                            fresh(dir, text);
                            let ln = |a: &str, b: &str| std::os::unix::fs::symlink(a, dir.join(b)).unwrap();
                            let long = format!("{}.rs", "n".repeat(250));
                            let longer = format!("{}.rs", "n".repeat(300));
                            let mut out = "s.rs";
                            match place {
                                0 => ln("/dev/full", "s.rs"),
                                1 => ln("/dev/full", "s.states"),
                                2 => {
                                    ln("/dev/full", "s.rs");
                                    ln("/dev/full", "s.states")
                                }
                                3 => std::fs::create_dir(dir.join("s.rs")).unwrap(),
                                4 => std::fs::create_dir(dir.join("s.states")).unwrap(),
                                // (the name of the report becomes too long)
                                5 => out = &long,
                                6 => out = &longer,
                                7 => out = "none/s.rs",
                                _ => ln("none/s.rs", "s.rs"),
                            }
                            let r = exec(
                                way,
                                which,
                                dir,
                                "s.laps",
                                &Env {
                                    force: true,
                                    out,
                                    ..Env::default()
                                },
                            );
                            st.add("states", 1);
                            if r.ok {
                                return Err(Violation::new(
                                    format!("{way:?}: unwritable place {place}: success is reported"),
                                    r.note,
                                    "",
                                ));
                            }
                            judge(way, &r, &w, false, &format!("unwritable place {place}"), st)
                        },
                    );
                }
            }
        }
    }
}
