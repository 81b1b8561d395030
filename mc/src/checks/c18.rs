//! C18: what is generated does not depend on what happened before
use crate::ctx::Ctx;
use crate::gen::{Opts, Which};
use crate::util::*;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};

/// what one operation produced: the verdict (or how it was refused), code, report
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Made {
    pub verdict: String,
    pub code: Vec<u8>,
    pub states: Vec<u8>,
}

impl Made {
    fn diff(&self, o: &Made) -> Option<String> {
        if self.verdict != o.verdict {
            return Some(format!("verdict {:?} instead of {:?}", self.verdict, o.verdict));
        }
        for (what, a, b) in [("parser code", &self.code, &o.code), ("state report", &self.states, &o.states)] {
            if a != b {
                let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
                let k = a.lines().zip(b.lines()).take_while(|(x, y)| x == y).count();
                return Some(format!(
                    "{what} differs at line {}: {:?} instead of {:?}",
                    k + 1,
                    a.lines().nth(k),
                    b.lines().nth(k)
                ));
            }
        }
        None
    }
}

/// a generation in progress, advanced phase by phase
trait Job {
    fn phase(&mut self, n: usize, dir: &Path);
    fn made(&mut self) -> Made;
}

pub const PHASES: usize = 4;

macro_rules! job_impl {
    ($name:ident, $lib:ident) => {
        struct $name {
            text: &'static str,
            label: String,
            o: Opts,
            spec: Option<$lib::grammar::Specification>,
            g: Option<$lib::grammar::Grammar>,
            made: Made,
        }
        impl Job for $name {
            fn phase(&mut self, n: usize, dir: &Path) {
                match n {
                    0 => match $lib::grammar::Specification::new(self.text, &self.label) {
                        Ok(s) => self.spec = Some(s),
                        Err(e) => self.made.verdict = format!("parse: {}", e.to_string().replace(&self.label, "LABEL")),
                    },
                    1 => {
                        if let Some(s) = self.spec.take() {
                            match $lib::grammar::Grammar::try_from((s, self.o.ign_sr, self.o.ign_rr)) {
                                Ok(g) => self.g = Some(g),
                                Err(e) => self.made.verdict = format!("grammar: {e:?}"),
                            }
                        }
                    }
                    2 => {
                        if let Some(g) = &self.g {
                            let p = dir.join("a.rs");
                            let _ = std::fs::remove_file(&p);
                            self.made.verdict = format!("code: {:?}", g.write_parser_code_to_file(&p));
                            self.made.code = std::fs::read(&p).unwrap_or_default();
                        }
                    }
                    _ => {
                        if let Some(g) = &self.g {
                            let p = dir.join("a.states");
                            let _ = std::fs::remove_file(&p);
                            self.made.verdict += &format!(" states: {:?}", g.write_description(&p));
                            self.made.states = std::fs::read(&p).unwrap_or_default();
                        }
                    }
                }
            }
            fn made(&mut self) -> Made {
                self.made.clone()
            }
        }
    };
}
job_impl!(PlainJob, lalr1_lib);
job_impl!(AugJob, alalr1_lib);

fn job(op: &Op, label: &str) -> Box<dyn Job> {
    let o = Opts {
        ign_sr: op.ign,
        ign_rr: op.ign,
        states: true,
    };
    let (text, label, made) = (spec(op.spec), label.to_string(), Made::default());
    match op.which {
        Which::Plain => Box::new(PlainJob {
            text,
            label,
            o,
            spec: None,
            g: None,
            made,
        }),
        Which::Aug => Box::new(AugJob {
            text,
            label,
            o,
            spec: None,
            g: None,
            made,
        }),
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Op {
    pub which: Which,
    pub spec: usize,
    pub ign: bool,
}

impl Op {
    fn show(&self) -> String {
        format!("{}:spec{}{}", self.which.name(), self.spec, if self.ign { "+waived" } else { "" })
    }
}

/// from small to rich; with precedences, recovery, several states; and ones that are refused
pub const SPECS: &[&str] = &[
    "%attr Attr\n%target Prs\n%%\n%token TA \"a\"\n%token TB \"b\"\n%skip (\\s+)\n%%\nS: TA S TB | .\n",
    // precedences, actions, several regular expressions, conflicts between them, unused symbols
    "%{ use x; %}\n%attr Attr\n%target Prs\n%%\n%token Num ([0-9]+)\n%token Id ([a-z]+)\n%token Semi \";\"\n%token Plus \"+\"\n%token Minus \"-\"\n%token Times \"*\"\n%token Over \"/\"\n%token Lp \"(\"\n%token Rp \")\"\n%token Unused1 \"u1\"\n%token Unused2 \"u2\"\n%token Unused3 (u3+)\n%skip (\\s+)\n%skip (#[^\\n]*)\n%left \"+\" \"-\"\n%left \"*\" \"/\"\n%right UM UP\n%%\nL: | L E \";\" | %error \";\" .\nE: E \"+\" E !{ $$ = f($1, $3); !} | E \"-\" E | E \"*\" E !{ $$ = g(); !} | E \"/\" E | \"(\" E \")\" | \"-\" E %prec UM | \"+\" E %prec UP | Num | Id | \"(\" %error \")\" .\nNever: E Never | Num .\nNever2: Id .\n",
    // the same with the tokens written otherwise
    "%attr Attr\n%target Prs\n%%\n%token Semi \";\"\n%token Num ([0-9]+)\n%token Id ([a-z]+)\n%token Plus \"+\"\n%token Minus \"-\"\n%token Lp \"(\"\n%token Rp \")\"\n%left Minus Plus\n%%\nL: | L E Semi | %error Semi .\nE: E Plus E | E Minus E !{ m($1); !} | Lp E Rp | Num | Id | Call .\nCall: Id Lp Args Rp | Id Lp Rp .\nArgs: E | Args \"+\" \"+\" E .\n",
    // conflicts (refused unless waived)
    "%attr Attr\n%target Prs\n%%\n%token If \"if\"\n%token Else \"else\"\n%token X \"x\"\n%token Y \"y\"\n%%\nS: If S | If S Else S | A | B | X Y .\nA: X | Y .\nB: X | Y A .\n",
    // errors
    "%attr Attr\n%target Prs\n%%\n%token TA \"a\"\n%token TA \"b\"\n%token TB \"a\"\n%%\nS: TA S | TB .\n",
    // undefined symbols
    "%attr Attr\n%target Prs\n%%\n%token TA \"a\"\n%%\nS: TA U1 | U2 U3 | \"zz\" | TA .\n",
    // not a specification
    "%attr Attr\n%target\n%%\n%token TA \"a\"\n%%\nS: TA .\n",
    // many tokens in one set, many states with several kernels
    "%attr Attr\n%target Prs\n%%\n%token T0 \"t0\"\n%token T1 \"t1\"\n%token T2 \"t2\"\n%token T3 \"t3\"\n%token T4 \"t4\"\n%token T5 \"t5\"\n%token T6 \"t6\"\n%token T7 \"t7\"\n%token R0 (r0+)\n%token R1 (r1+)\n%token R2 (r2+)\n%token R3 (r3+)\n%%\nS: A T0 | B T1 | C T2 | D T3 | A B C D | R0 | R1 A | R2 B R3 .\nA: T4 | T4 A | .\nB: T5 T4 | T6 .\nC: T5 T6 | T7 C T7 | R0 .\nD: T7 D R1 | R2 | .\n",
    // only a preamble and a rule with every kind of text
    "%{\n  use é;\n%}\n%attr Attr\n%target Prs\n%reduce_reduce 0\n%shift_reduce 0\n%%\n%token TA \"\\n\"\n%token TB \"{}\"\n%skip (\\s+)\n%%\nS: TA S TB !{ $$ = a($1, $2); let x = \"$3\"; !} | TB .\n",
    // same names, other order
    "%attr Attr\n%target Prs\n%%\n%token TB \"b\"\n%token TA \"a\"\n%skip (\\s+)\n%%\nS: TA S TB | .\n",
    // for the augmented generator only: predicates
    "%attr Attr\n%target Prs\n%%\n%token TA \"a\"\n%token TB \"b\"\n%%\nS: A S ?( p($1) ?) !{ $$ = $1; !} | TB ?( q ?) | B S | .\nA: TA ?( r ?) | TA ?( s ?) | TA .\nB: TB TA ?( t ?) | TB .\n",
];

/// The specifications that histories of shared pieces are made of: every combination of the pieces
/// (an action's text, a symbol's name, a token's name or text, ...) in which at most two differ from
/// the base, so that for anything that could be remembered by one of its pieces there are
/// specifications with the same piece in different surroundings.
const PIECES: &[&[&str]] = &[
    // preamble
    &["", "%{ use x; %}\n"],
    &["%attr Attr\n", "%attr Prs\n"],
    &["%target Prs\n", "%target Attr\n"],
    // tokens: the same text with another name, the same name with another text, another kind
    &["%token TA \"a\"\n", "%token TA \"x\"\n", "%token TC \"a\"\n%token TA \"b\"\n", "%token TA (a)\n"],
    &["%token TB \"y\"\n", "%token TB (a)\n%token TD \"y\"\n"],
    &["", "%skip (\\s+)\n", "%skip (a)\n"],
    // precedences: the same token on another level, with another associativity
    &["", "%left TA\n", "%right TA\n", "%left TAG\n%left TA\n", "%left TA TB\n"],
    // the start symbol's alternatives: the same texts at other places, of other lengths
    &[
        "S: X TA ACT | Y TB .\n",
        "S: X TA TA ACT | Y TB .\n",
        "S: Y TB | X TA ACT .\n",
        "S: X TA ACT | Y TB ACT .\n",
        "S: TA ACT | X TB ACT | Y TB .\n",
        "S: S X TA ACT | Y TB .\n",
        "S: X X X TA ACT | Y TB .\n",
    ],
    // the other symbols, with the same productions, nullable, recursive, in another order
    &[
        "X: TB TB ACT .\nY: TA .\n",
        "Y: TA .\nX: TB TB ACT .\n",
        "X: TB TB ACT | .\nY: TA .\n",
        "X: TB X TB ACT | TA TA .\nY: TA .\n",
        "X: TB TB ACT .\nX: TB .\nY: TA .\n",
        "X: TB TB ACT .\nY: TA | %error .\n",
        "X: Y Y ACT .\nY: TA .\n",
        "X: TB TB %prec TA ACT | TA X .\nY: TA .\n",
    ],
    // the actions
    &["!{ f(\"$3\", $$, \"$2\", $1); !}", "", "!{ f($1); !}"],
];

fn combined(choice: &[usize], pred: bool) -> String {
    let mut s = String::new();
    for (i, c) in choice.iter().take(9).enumerate() {
        if i == 3 || i == 7 {
            s += "%%\n";
        }
        s += PIECES[i][*c];
    }
    let act = PIECES[9][choice[9]];
    let act = if pred { format!("?( \"$2\" == $1 ?) {act}") } else { act.to_string() };
    s.replace("ACT", &act)
}

/// the base, then those in which one piece differs, then those in which two do
pub fn family() -> &'static (Vec<String>, usize) {
    static F: std::sync::OnceLock<(Vec<String>, usize)> = std::sync::OnceLock::new();
    F.get_or_init(|| {
        let base = vec![0; PIECES.len()];
        let mut choices = vec![base.clone()];
        let mut single = 0;
        for k in 1..=2 {
            for c in combos(PIECES.len(), k) {
                let mut vs = vec![base.clone()];
                for i in c {
                    vs = vs
                        .into_iter()
                        .flat_map(|v| {
                            (1..PIECES[i].len()).map(move |x| {
                                let mut w = v.clone();
                                w[i] = x;
                                w
                            })
                        })
                        .collect();
                }
                choices.extend(vs);
            }
            if k == 1 {
                single = choices.len();
            }
        }
        let mut texts: Vec<String> = choices.iter().map(|c| combined(c, false)).collect();
        texts.extend(choices.iter().take(single).map(|c| combined(c, true)));
        (texts, single)
    })
}

/// specifications by number: the listed ones, then the family
pub fn spec(n: usize) -> &'static str {
    match SPECS.get(n) {
        Some(s) => s,
        None => &family().0[n - SPECS.len()],
    }
}

/// one specification, then another, over and over, in one process
fn shared_pieces(ctx: &mut Ctx) {
    let (texts, single) = family();
    let n = SPECS.len();
    // (what is generated first matters most: every one that differs by one piece; thorough: all)
    let firsts: Vec<usize> = (0..texts.len()).filter(|i| ctx.thorough() || i < single || *i >= texts.len() - single).collect();
    let chunk = 12;
    for which in crate::checks::g1::BOTH {
        let op = |i: usize| Op {
            which,
            spec: n + i,
            ign: true,
        };
        let mine: Vec<usize> = (0..texts.len()).filter(|i| which == Which::Aug || *i < texts.len() - single).collect();
        for c in firsts.chunks(chunk) {
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            let dir = ctx.dir.clone();
            ctx.case(
                || format!("{}: specifications sharing pieces, {c:?} first", which.name()),
                |st| {
                    // each alone, in a process that generated nothing before
                    static FRESH: std::sync::Mutex<std::collections::BTreeMap<(bool, usize), Made>> =
                        std::sync::Mutex::new(std::collections::BTreeMap::new());
                    let key = |i: usize| (which == Which::Aug, i);
                    let mut alone = FRESH.lock().unwrap();
                    for i in mine.iter().chain(c) {
                        if !alone.contains_key(&key(*i)) {
                            let p = dir.join("alone");
                            let r = in_child(&dir, || {
                                let mut keep = vec![];
                                let m = carry_out(&op(*i), How::Full, "label", &dir, &mut keep).unwrap();
                                let mut v = vec![];
                                put(&mut v, m.verdict.as_bytes());
                                put(&mut v, &m.code);
                                put(&mut v, &m.states);
                                std::fs::write(&p, v).unwrap();
                                String::new()
                            });
                            match r {
                                Ok(e) if e.is_empty() => (),
                                Ok(e) | Err(e) => return Err(bad(format!("{}: {e}", op(*i).show()), spec(n + i).into())),
                            }
                            let m = read_made(&p).map_err(|e| bad(e, String::new()))?;
                            if m.verdict.starts_with("code: Ok") {
                                st.add("accepted", 1);
                            }
                            alone.insert(key(*i), m);
                        }
                    }
                    for &a in c {
                        st.add("histories", mine.len() as u64 * 2);
                        st.add("states", mine.len() as u64 * 2);
                        st.add("transitions", mine.len() as u64 * 2);
                        st.add("traces_validated_against_impl", mine.len() as u64 * 2);
                        crate::ctx::beat();
                        let r = in_child(&dir, || {
                            let mut keep = vec![];
                            for b in &mine {
                                for x in [a, *b] {
                                    let m = carry_out(&op(x), How::Full, "label", &dir, &mut keep).unwrap();
                                    keep.clear();
                                    if let Some(d) = m.diff(&alone[&key(x)]) {
                                        return format!("{:?} after others ({a} before {b}): {d}", spec(n + x));
                                    }
                                }
                            }
                            String::new()
                        });
                        match r {
                            Ok(s) if s.is_empty() => (),
                            Ok(s) | Err(s) => {
                                return Err(bad(
                                    format!("{}: what is generated depends on what was generated before: {s}", which.name()),
                                    format!("first specification\n{}", spec(n + a)),
                                ))
                            }
                        }
                    }
                    st.sample(|| format!("{}: {} specifications after {:?}", which.name(), mine.len(), spec(n + c[0])));
                    Ok(())
                },
            );
        }
    }
}

fn ops(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for which in crate::checks::g1::BOTH {
        for spec in 0..n {
            v.push(Op {
                which,
                spec,
                ign: false,
            });
        }
        for spec in [3, 7, 10] {
            v.push(Op {
                which,
                spec,
                ign: true,
            });
        }
    }
    v
}

/// runs f in a child that shares nothing with what this process did since it started
fn in_child(dir: &Path, f: impl FnOnce() -> String) -> Result<String, String> {
    let p = dir.join("child");
    let _ = std::fs::remove_file(&p);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let s = match r {
            Ok(s) => s,
            Err(_) => format!("panic: {}", crate::ctx::LAST_PANIC.with(|p| p.borrow().clone())),
        };
        let ok = std::fs::write(&p, s).is_ok();
        unsafe { libc::_exit(if ok { 0 } else { 9 }) }
    }
    if pid < 0 {
        panic!("machinery: fork: {}", std::io::Error::last_os_error());
    }
    let mut st = 0;
    unsafe {
        libc::waitpid(pid, &mut st, 0);
    }
    if st != 0 {
        return Err(format!("ended with wait status {st}"));
    }
    Ok(std::fs::read_to_string(&p).unwrap_or_default())
}

fn put(v: &mut Vec<u8>, b: &[u8]) {
    v.extend_from_slice(&(b.len() as u64).to_le_bytes());
    v.extend_from_slice(b);
}

/// entry point of `mc --gen WHICH SPEC IGN LABEL FILE`: one generation in a process of its own
pub fn standalone(args: &[String]) -> i32 {
    crate::ctx::install_panic_hook();
    let op = Op {
        which: if args[0] == "lalr1" { Which::Plain } else { Which::Aug },
        spec: args[1].parse().unwrap(),
        ign: args[2] == "1",
    };
    let out = PathBuf::from(&args[4]);
    let mut j = job(&op, &args[3]);
    for n in 0..PHASES {
        j.phase(n, &out);
    }
    let m = j.made();
    let mut v = vec![];
    put(&mut v, m.verdict.as_bytes());
    put(&mut v, &m.code);
    put(&mut v, &m.states);
    match std::fs::File::create(out.join("made")).and_then(|mut f| f.write_all(&v)) {
        Ok(()) => 0,
        Err(_) => 9,
    }
}

fn fresh(op: &Op, label: &str, dir: &Path) -> Result<Made, String> {
    let d = dir.join("fresh");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("--gen")
        .arg(op.which.name())
        .arg(op.spec.to_string())
        .arg(if op.ign { "1" } else { "0" })
        .arg(label)
        .arg(&d)
        .stderr(std::process::Stdio::null())
        .status()
        .map_err(|e| e.to_string())?;
    if !st.success() {
        return Err(format!("generation in a fresh process ended with {st}"));
    }
    read_made(&d.join("made"))
}

fn read_made(p: &Path) -> Result<Made, String> {
    let mut f = std::fs::File::open(p).map_err(|e| e.to_string())?;
    let mut b = vec![];
    f.read_to_end(&mut b).map_err(|e| e.to_string())?;
    let mut at = 0;
    let mut get = || {
        let n = u64::from_le_bytes(b[at..at + 8].try_into().unwrap()) as usize;
        let v = b[at + 8..at + 8 + n].to_vec();
        at += 8 + n;
        v
    };
    Ok(Made {
        verdict: String::from_utf8_lossy(&get()).into_owned(),
        code: get(),
        states: get(),
    })
}

fn bad(what: String, detail: String) -> Violation {
    Violation::new(what, detail, "")
}

/// how a generation that precedes is carried out
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum How {
    Full,
    /// the first phase only, kept alive
    SpecOnly,
    /// no files written, dropped
    NoFiles,
    /// report before code, each twice
    Backwards,
    OtherThread,
}
const HOWS: [How; 5] = [How::Full, How::SpecOnly, How::NoFiles, How::Backwards, How::OtherThread];

fn carry_out(op: &Op, how: How, label: &str, dir: &Path, keep: &mut Vec<Box<dyn Job>>) -> Option<Made> {
    let phases: &[usize] = match how {
        How::Full => &[0, 1, 2, 3],
        How::SpecOnly => &[0],
        How::NoFiles => &[0, 1],
        How::Backwards => &[0, 1, 3, 2, 3, 2, 3],
        How::OtherThread => {
            let (op, label, dir) = (*op, label.to_string(), dir.to_path_buf());
            return std::thread::spawn(move || {
                let mut j = job(&op, &label);
                for n in 0..PHASES {
                    j.phase(n, &dir);
                }
                j.made()
            })
            .join()
            .ok();
        }
    };
    let mut j = job(op, label);
    for n in phases {
        j.phase(*n, dir);
    }
    let m = j.made();
    match how {
        How::Full => {
            keep.push(j);
            Some(m)
        }
        // (the verdicts of repeated writes pile up: the caller ignores them)
        How::Backwards => Some(m),
        _ => {
            keep.push(j);
            None
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let all = ops(SPECS.len());
    // what fresh processes produce
    let cli = crate::checks::c19::binaries();
    let mut base: Vec<Option<Made>> = vec![None; all.len()];
    for (i, op) in all.iter().enumerate() {
        if let Ok(m) = fresh(op, "label", &dir) {
            base[i] = Some(m);
        }
    }
    for (i, op) in all.iter().enumerate() {
        let (b, dir) = (base[i].clone(), dir.clone());
        let cli = cli.clone();
        ctx.case(
            || format!("fresh processes: {}", op.show()),
            |st| {
                let Some(b) = b else {
                    return Err(bad(
                        format!("{}: {}", op.show(), fresh(op, "label", &dir).err().unwrap_or_default()),
                        spec(op.spec).into(),
                    ));
                };
                st.sample(|| format!("{}: {} bytes of code, {} of report, verdict {:.60}", op.show(), b.code.len(), b.states.len(), b.verdict));
                for label in ["label", "label", "other", "a b", ""] {
                    st.add("transitions", 1);
                    st.add("fresh_processes", 1);
                    st.add("traces_validated_against_impl", 1);
                    match fresh(op, label, &dir) {
                        Ok(m) => {
                            let mut m = m;
                            if m.verdict.starts_with("parse") {
                                m.verdict = b.verdict.clone();
                            }
                            if let Some(d) = m.diff(&b) {
                                return Err(bad(
                                    format!("{}: two fresh processes (label {label:?}) disagree: {d}", op.show()),
                                    spec(op.spec).into(),
                                ));
                            }
                        }
                        Err(e) => return Err(bad(format!("{}: {e}", op.show()), spec(op.spec).into())),
                    }
                }
                // the command line tool
                let d = dir.join("cli");
                for k in 0..3 {
                    let _ = std::fs::remove_dir_all(&d);
                    let sub = if k == 1 { d.join("deep er/é") } else { d.clone() };
                    std::fs::create_dir_all(&sub).unwrap();
                    let sp = sub.join(if k == 2 { "other.name" } else { "s.spec" });
                    std::fs::write(&sp, spec(op.spec)).unwrap();
                    let mut c = std::process::Command::new(&cli[(op.which == Which::Aug) as usize]);
                    if op.ign {
                        c.args(["--ignore-sr-conflicts", "--ignore-rr-conflicts"]);
                    }
                    c.stderr(std::process::Stdio::null());
                    let out = if k == 2 { d.join("out.x") } else { sp.with_extension("rs") };
                    if k == 2 {
                        c.arg("-o").arg(&out);
                    }
                    c.arg(&sp);
                    let r = c.status().map_err(|e| bad(format!("cannot run the tool: {e}"), String::new()))?;
                    st.add("transitions", 1);
                    st.add("command_line_runs", 1);
                    st.add("traces_validated_against_impl", 1);
                    let accepted = b.verdict.starts_with("code: Ok");
                    if r.success() != accepted {
                        return Err(bad(
                            format!("{}: the command line tool ends with {r}, the library says {}", op.show(), b.verdict),
                            spec(op.spec).into(),
                        ));
                    }
                    let m = Made {
                        verdict: b.verdict.clone(),
                        code: std::fs::read(&out).unwrap_or_default(),
                        states: std::fs::read(out.with_extension("states")).unwrap_or_default(),
                    };
                    if let Some(x) = m.diff(&b) {
                        return Err(bad(
                            format!("{}: the command line tool and the library disagree: {x}", op.show()),
                            spec(op.spec).into(),
                        ));
                    }
                }
                let _ = std::fs::remove_dir_all(&d);
                // ParserGenerator
                if !op.ign {
                    let text = spec(op.spec);
                    let f = dir.join("pg.spec");
                    std::fs::write(&f, text).unwrap();
                    let o = dir.join("pg.rs");
                    let _ = std::fs::remove_file(&o);
                    macro_rules! pg {
                        ($lib:ident) => {
                            [
                                $lib::ParserGenerator::new(&f).map(|p| p.write_parser_code_to_file(&o)).map(|r| (r.is_ok(), std::fs::read(&o).unwrap_or_default())).ok(),
                                $lib::ParserGenerator::try_from(text).map(|p| p.write_parser_code_to_file(&o)).map(|r| (r.is_ok(), std::fs::read(&o).unwrap_or_default())).ok(),
                            ]
                        };
                    }
                    let rs = match op.which {
                        Which::Plain => pg!(lalr1_lib),
                        Which::Aug => pg!(alalr1_lib),
                    };
                    for r in rs {
                        st.add("transitions", 1);
                        st.add("traces_validated_against_impl", 1);
                        let accepted = b.verdict.starts_with("code: Ok");
                        let same = match r {
                            Some((ok, code)) => accepted && ok && code == b.code,
                            None => !accepted,
                        };
                        if !same {
                            return Err(bad(
                                format!("{}: ParserGenerator and Grammar disagree", op.show()),
                                spec(op.spec).into(),
                            ));
                        }
                    }
                }
                st.add("states", 1);
                Ok(())
            },
        );
    }
    // histories
    let steps: Vec<(usize, How)> = {
        let hows: &[How] = &HOWS;
        let mut v = vec![];
        for i in 0..all.len() {
            for h in hows {
                v.push((i, *h));
            }
        }
        v
    };
    // every history of one step (thorough: two) carried out in any way, followed by any operation in
    // full; every history of three operations in full
    let mut firsts: Vec<Vec<(usize, How)>> = vec![];
    for s in &steps {
        firsts.push(vec![*s]);
    }
    for s in &steps {
        for t in &steps {
            if ctx.thorough() || (s.1 == How::Full && t.1 == How::Full) {
                firsts.push(vec![*s, *t]);
            }
        }
    }
    for h in &firsts {
        let (dir, all, base) = (dir.clone(), &all, &base);
        ctx.case(
            || format!("history {:?}, then each operation", h.iter().map(|(i, w)| format!("{} {w:?}", all[*i].show())).collect::<Vec<_>>()),
            |st| {
                for last in 0..all.len() {
                    st.add("histories", 1);
                    st.add("states", 1);
                    st.add("traces_validated_against_impl", 1);
                    st.add("transitions", h.len() as u64 + 1);
                    let r = in_child(&dir, || {
                        let mut keep = vec![];
                        for (k, (i, how)) in h.iter().chain([&(last, How::Full)]).enumerate() {
                            let m = carry_out(&all[*i], *how, "label", &dir, &mut keep);
                            if let (Some(mut m), Some(b)) = (m, &base[*i]) {
                                if *how == How::Backwards {
                                    m.verdict = b.verdict.clone();
                                }
                                if let Some(d) = m.diff(b) {
                                    return format!("step {k} ({}): {d}", all[*i].show());
                                }
                            }
                        }
                        String::new()
                    });
                    match r {
                        Ok(s) if s.is_empty() => (),
                        Ok(s) | Err(s) => {
                            return Err(bad(
                                format!("after a history the result is not that of a fresh process: {s}"),
                                format!(
                                    "history: {:?}",
                                    h.iter().chain([&(last, How::Full)]).map(|(i, w)| format!("{} {w:?}", all[*i].show())).collect::<Vec<_>>()
                                ),
                            ))
                        }
                    }
                }
                Ok(())
            },
        );
    }
    shared_pieces(ctx);
    // interleavings of the phases of two generations, on one thread and on two
    let few: Vec<usize> = (0..all.len()).filter(|i| ctx.thorough() || [0, 1, 3, 7, 8, 10].contains(&all[*i].spec)).collect();
    for &a in &few {
        for &b in &few {
            if a > b {
                continue;
            }
            let (dir, all, base) = (dir.clone(), &all, &base);
            ctx.case(
                || format!("interleavings of {} and {}", all[a].show(), all[b].show()),
                |st| {
                    let mut orders = vec![];
                    merges(&mut [PHASES, PHASES], &mut vec![], &mut |o| orders.push(o.to_vec()));
                    for threads in [false, true] {
                        for o in &orders {
                            st.add("states", 1);
                            st.add("interleavings", 1);
                            st.add("traces_validated_against_impl", 1);
                            st.add("transitions", o.len() as u64);
                        }
                        let r = in_child(&dir, || {
                            for o in &orders {
                                let ms = if threads { on_threads(&[all[a], all[b]], o, &dir) } else { on_one(&[all[a], all[b]], o, &dir) };
                                for (m, i) in ms.iter().zip([a, b]) {
                                    if let Some(b) = &base[i] {
                                        if let Some(d) = m.diff(b) {
                                            return format!("order of phases {o:?}: {}: {d}", all[i].show());
                                        }
                                    }
                                }
                            }
                            String::new()
                        });
                        match r {
                            Ok(s) if s.is_empty() => (),
                            Ok(s) | Err(s) => {
                                return Err(bad(
                                    format!("interleaved generations{}: {s}", if threads { " on two threads" } else { "" }),
                                    format!("{} and {}", all[a].show(), all[b].show()),
                                ))
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

fn merges(left: &mut [usize; 2], cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
    if *left == [0, 0] {
        return f(cur);
    }
    for i in 0..2 {
        if left[i] > 0 {
            left[i] -= 1;
            cur.push(i);
            merges(left, cur, f);
            cur.pop();
            left[i] += 1;
        }
    }
}

fn on_one(ops: &[Op; 2], order: &[usize], dir: &Path) -> Vec<Made> {
    let mut js = [job(&ops[0], "label"), job(&ops[1], "label")];
    let mut at = [0, 0];
    for i in order {
        js[*i].phase(at[*i], dir);
        at[*i] += 1;
    }
    js.iter_mut().map(|j| j.made()).collect()
}

/// each generation on a thread of its own, one phase at a time in the given order
fn on_threads(ops: &[Op; 2], order: &[usize], dir: &Path) -> Vec<Made> {
    use std::sync::mpsc::channel;
    let mut go = vec![];
    let mut hs = vec![];
    let (done_tx, done) = channel();
    for op in ops {
        let (tx, rx) = channel::<usize>();
        go.push(tx);
        let (op, dir, done) = (*op, dir.to_path_buf(), done_tx.clone());
        hs.push(std::thread::spawn(move || {
            let mut j = job(&op, "label");
            while let Ok(n) = rx.recv() {
                let r = crate::ctx::no_panic(|| j.phase(n, &dir));
                let _ = done.send(());
                if let Err(e) = r {
                    return Made {
                        verdict: format!("panic: {e}"),
                        ..Made::default()
                    };
                }
            }
            j.made()
        }));
    }
    drop(done_tx);
    let mut at = [0, 0];
    for i in order {
        let _ = go[*i].send(at[*i]);
        at[*i] += 1;
        if done.recv().is_err() {
            break;
        }
    }
    drop(go);
    hs.into_iter()
        .map(|h| {
            h.join().unwrap_or(Made {
                verdict: "panicked".into(),
                ..Made::default()
            })
        })
        .collect()
}
