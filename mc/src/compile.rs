//! Compiling generated parsers with rustc, against the very libraries this harness was built from,
//! and having them say everything they know.
use crate::gen::Which;
use crate::tables::{Act, PArg, Tables, Term};
use std::fmt::Write as _;
use std::path::Path;
use std::process::{Command, Stdio};

pub struct Unit {
    pub which: Which,
    pub code: String,
    /// the module with the attribute and target types
    pub pre: String,
    /// the code has no preamble: put it into a module which sees the types
    pub wrap: bool,
    /// have the lexer's definitions recorded when it is built
    pub record: bool,
    pub target: String,
    pub lens: Vec<usize>,
    pub texts: Vec<String>,
}

impl Unit {
    pub fn new(which: Which, code: &str, attr: &str, target: &str, wrap: bool) -> Unit {
        let a = if attr == "Attr" { "Attr".to_string() } else { format!("Attr as {attr}") };
        Unit {
            which,
            code: code.to_string(),
            pre: format!("pub use crate::rt::{{{a}, act, pr}}; crate::target!({target});"),
            wrap,
            record: false,
            target: target.to_string(),
            lens: vec![],
            texts: vec![],
        }
    }
}

/// names of the variants of the two enumerations
pub fn variants(code: &str) -> Result<(Vec<String>, Vec<String>), String> {
    let f = syn::parse_file(code).map_err(|e| e.to_string())?;
    let get = |n: &str| {
        f.items
            .iter()
            .find_map(|i| match i {
                syn::Item::Enum(e) if e.ident == n => {
                    Some(e.variants.iter().map(|v| v.ident.to_string()).collect::<Vec<_>>())
                }
                _ => None,
            })
            .ok_or(format!("no enumeration {n}"))
    };
    Ok((get("AATerminal")?, get("AANonTerminal")?))
}

pub enum Failed {
    /// does not compile: the first error
    Rustc(String),
    Run(String),
}

fn externs() -> Result<Vec<String>, String> {
    let v = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let path = format!("{v}/target/artifacts.json");
    let a = std::fs::read_to_string(&path).map_err(|e| format!("{path}: {e}"))?;
    let mut out = vec!["-L".to_string(), format!("dependency={v}/target/debug/deps")];
    for n in ["lexan", "lalr1", "alalr1", "lazy_static"] {
        let line = a
            .lines()
            .find(|l| l.contains(&format!("\"name\":\"{n}\"")) && l.contains(".rlib\""))
            .ok_or(format!("no library {n} in {path}"))?;
        let f = line
            .split('"')
            .find(|x| x.ends_with(".rlib"))
            .ok_or(format!("no rlib of {n}"))?;
        out.push("--extern".into());
        out.push(format!("{n}={f}"));
    }
    Ok(out)
}

/// the lines each unit prints
pub fn run(units: &[Unit], dir: &Path) -> Result<Vec<Vec<String>>, Failed> {
    let fail = |e: String| Failed::Run(e);
    let d = dir.join("rc");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).map_err(|e| fail(e.to_string()))?;
    let mut m = String::from("#![allow(warnings)]\n#[macro_use]\npub mod rt;\n");
    let mut body = String::new();
    for (k, u) in units.iter().enumerate() {
        let f = d.join(format!("g{k}.rs"));
        let code = match u.record {
            true => u.code.replace("lexan::LexicalAnalyzer::new(", "crate::rt::recorded("),
            false => u.code.clone(),
        };
        std::fs::write(&f, code).map_err(|e| fail(e.to_string()))?;
        let _ = writeln!(m, "mod m{k} {{ pub mod d {{ {} }}", u.pre);
        if u.wrap {
            let _ = writeln!(m, "pub mod g {{ use super::d::*; include!({f:?}); }} }}");
        } else {
            let _ = writeln!(m, "#[path = {f:?}] pub mod g; }}");
        }
        let (t, n) = variants(&u.code).map_err(Failed::Rustc)?;
        let list = |e: &str, v: &[String]| {
            let v: Vec<String> = v.iter().map(|x| format!("m{k}::g::{e}::{x}")).collect();
            v.join(", ")
        };
        let _ = writeln!(
            body,
            "rt::{}(&mut m{k}::d::{}::default(), &[{}], &[{}], &rt::Desc {{ key: {k}, lens: &{:?}, texts: &{:?}, label: \"t\" }});",
            if u.which == Which::Aug { "dump_aug" } else { "dump_plain" },
            u.target,
            list("AATerminal", &t),
            list("AANonTerminal", &n),
            u.lens,
            u.texts,
        );
    }
    let _ = writeln!(m, "fn main() {{ std::panic::set_hook(Box::new(|_| {{}}));\n{body}}}");
    std::fs::write(d.join("main.rs"), m).map_err(|e| fail(e.to_string()))?;
    std::fs::write(d.join("rt.rs"), include_str!("../shim/rt.rs")).map_err(|e| fail(e.to_string()))?;
    let ex = externs().map_err(fail)?;
    let out = Command::new("rustc")
        .args(["--edition", "2021", "-C", "opt-level=0", "-C", "debuginfo=0", "--cap-lints", "allow"])
        .args(["--crate-name", "b", "-o", "b", "main.rs", "--error-format", "short"])
        .args(&ex)
        .env("TMPDIR", &d)
        .current_dir(&d)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| fail(format!("rustc: {e}")))?;
    if !out.status.success() {
        let e = String::from_utf8_lossy(&out.stderr).to_string();
        let v: Vec<&str> = e.lines().filter(|l| l.contains("error")).take(4).collect();
        return Err(Failed::Rustc(v.join("; ")));
    }
    let out = Command::new("timeout")
        .args(["100", "./b"])
        .current_dir(&d)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| fail(e.to_string()))?;
    if !out.status.success() {
        return Err(Failed::Run(format!(
            "the compiled parsers ended with {}: {}",
            out.status,
            String::from_utf8_lossy(&out.stderr).lines().next().unwrap_or("")
        )));
    }
    let mut all: Vec<Vec<String>> = vec![];
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        if l.starts_with("M\t") {
            all.push(vec![]);
        } else if let Some(v) = all.last_mut() {
            v.push(l.to_string());
        }
    }
    let _ = std::fs::remove_dir_all(&d);
    if all.len() != units.len() {
        return Err(Failed::Run(format!("{} of {} parsers answered", all.len(), units.len())));
    }
    Ok(all)
}

fn act_text(t: &Tables, a: &Act) -> String {
    match a {
        Act::Shift(s) => format!("s{s}"),
        Act::Reduce(s) => format!("r{s}"),
        Act::Accept => "a".into(),
        Act::Err => "e".into(),
        Act::Panic(_) => "p".into(),
        Act::Test(args, x, y) => {
            let mut id = String::new();
            let mut v = vec![];
            let mut tag = String::new();
            for p in args {
                match p {
                    PArg::Int(i) => id = i.to_string(),
                    PArg::Stack(n) => v.push(format!("a{n}")),
                    PArg::Tag(k) => tag = t.terms[*k as usize].clone(),
                    PArg::Other(s) => v.push(s.clone()),
                }
            }
            format!("?{id} {} {tag}?({})({})", v.join(" "), act_text(t, x), act_text(t, y))
        }
    }
}

/// the lines (without those on actions and texts) the tables stand for
pub fn lines(t: &Tables, record: bool) -> Vec<String> {
    let mut o = vec![];
    let name = |k: u16| t.terms[k as usize].clone();
    let set = |v: &mut dyn Iterator<Item = String>| v.collect::<Vec<_>>().join(" ");
    for i in 0..t.terms.len() {
        o.push(format!("T\t{}\t{:?}", t.terms[i], t.term_disp[i]));
    }
    for i in 0..t.nts.len() {
        o.push(format!("N\t{}\t{:?}", t.nts[i], t.nt_disp[i]));
    }
    if record {
        t.lits.iter().for_each(|(k, s)| o.push(format!("D\tl\t{}\t{s:?}", name(*k))));
        t.regs.iter().for_each(|(k, s)| o.push(format!("D\tr\t{}\t{s:?}", name(*k))));
        t.skips.iter().for_each(|s| o.push(format!("D\ts\t-\t{s:?}")));
        o.push(format!("D\te\t{}\t", name(t.end)));
    }
    for (s, row) in t.action.iter().enumerate() {
        for k in 0..t.terms.len() as u16 {
            o.push(format!("A\t{s}\t{}\t{}", name(k), act_text(t, &row[k as usize])));
        }
    }
    for s in 0..t.action.len() as u32 {
        for n in 0..t.nts.len() as u16 {
            if let Some(x) = t.goto.get(&(n, s)) {
                o.push(format!("G\t{s}\t{}\t{x}", t.nts[n as usize]));
            }
        }
        o.push(format!("L\t{s}\t{}", set(&mut t.expect[s as usize].iter().map(|k| name(*k)))));
        if let Some(x) = t.err_goto.get(&s) {
            o.push(format!("X\t{s}\t{x}"));
        }
    }
    for (k, v) in t.viable.iter().enumerate() {
        o.push(format!("V\t{}\t{}", name(k as u16), set(&mut v.iter().map(|x| x.to_string()))));
    }
    for (i, (n, k)) in t.prods.iter().enumerate() {
        o.push(format!("P\t{i}\t{}\t{k}", t.nts[*n as usize]));
    }
    o
}

/// what act() makes of r1, r2 ...
pub fn term_text(t: &Term) -> String {
    match t {
        Term::Rhs(i) => format!("r{}", i + 1),
        Term::Default => "-".into(),
        Term::Str(s) => s.clone(),
        Term::Call(i, a) => {
            let v: Vec<String> = a.iter().map(term_text).collect();
            format!("{i}({})", v.join(" "))
        }
    }
}

fn unesc(s: &str) -> Option<String> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            't' => o.push('\t'),
            'r' => o.push('\r'),
            '0' => o.push('\0'),
            'u' => {
                let h: String = it.by_ref().skip(1).take_while(|c| *c != '}').collect();
                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            c => o.push(c),
        }
    }
    Some(o)
}

/// "7(r1 3(r2 -))"
fn term(s: &str) -> Term {
    fn go(s: &str) -> Option<(Term, &str)> {
        if let Some(r) = s.strip_prefix('-') {
            return Some((Term::Default, r));
        }
        if let Some(r) = s.strip_prefix('r') {
            let n = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
            return Some((Term::Rhs(r[..n].parse::<usize>().ok()?.checked_sub(1)?), &r[n..]));
        }
        let n = s.find('(')?;
        let i = s[..n].parse().ok()?;
        let mut r = &s[n + 1..];
        let mut v = vec![];
        loop {
            if let Some(r) = r.strip_prefix(')') {
                return Some((Term::Call(i, v), r));
            }
            let (t, q) = go(r.strip_prefix(' ').unwrap_or(r))?;
            v.push(t);
            r = q;
        }
    }
    match go(s) {
        Some((t, "")) => t,
        _ => Term::Str(s.to_string()),
    }
}

/// what lines() and act_text() make of tables, read back
pub fn tables(code: &str, aug: bool, lines: &[String]) -> Option<Tables> {
    let (terms, nts) = variants(code).ok()?;
    let ti = |s: &str| terms.iter().position(|x| x == s).map(|x| x as u16);
    let ni = |s: &str| nts.iter().position(|x| x == s).map(|x| x as u16);
    let mut t = Tables {
        aug,
        ..Tables::default()
    };
    fn act<'a>(s: &'a str, ti: &dyn Fn(&str) -> Option<u16>) -> Option<(Act, &'a str)> {
        let num = |r: &'a str| -> Option<(u32, &'a str)> {
            let n = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
            Some((r[..n].parse().ok()?, &r[n..]))
        };
        let r = &s[1..];
        match &s[..1] {
            "s" => num(r).map(|(n, r)| (Act::Shift(n), r)),
            "r" => num(r).map(|(n, r)| (Act::Reduce(n), r)),
            "a" => Some((Act::Accept, r)),
            "e" => Some((Act::Err, r)),
            "p" => Some((Act::Panic(String::new()), r)),
            "?" => {
                let i = r.find('?')?;
                let mut args = vec![];
                let w: Vec<&str> = r[..i].split_whitespace().collect();
                args.push(PArg::Int(w.first()?.parse().ok()?));
                for x in &w[1..w.len() - 1] {
                    args.push(match x.strip_prefix('a').and_then(|n| n.parse().ok()) {
                        Some(n) => PArg::Stack(n),
                        None => PArg::Other(x.to_string()),
                    });
                }
                args.push(match ti(w[w.len() - 1]) {
                    Some(k) => PArg::Tag(k),
                    None => PArg::Other(w[w.len() - 1].to_string()),
                });
                let (x, r) = act(r[i + 1..].strip_prefix('(')?, ti)?;
                let (y, r) = act(r.strip_prefix(")(")?, ti)?;
                Some((Act::Test(args, Box::new(x), Box::new(y)), r.strip_prefix(')')?))
            }
            _ => None,
        }
    }
    for l in lines {
        let f: Vec<&str> = l.split('\t').collect();
        match (f[0], &f[1..]) {
            ("T", [_, d]) => t.term_disp.push(unesc(d)?),
            ("N", [_, d]) => t.nt_disp.push(unesc(d)?),
            ("D", ["l", k, d]) => t.lits.push((ti(k)?, unesc(d)?)),
            ("D", ["r", k, d]) => t.regs.push((ti(k)?, unesc(d)?)),
            ("D", ["s", _, d]) => t.skips.push(unesc(d)?),
            ("D", ["e", k, _]) => t.end = ti(k)?,
            ("A", [s, _, a]) => {
                let s: usize = s.parse().ok()?;
                if t.action.len() == s {
                    t.action.push(vec![]);
                }
                let (a, rest) = act(a, &ti)?;
                if !rest.is_empty() {
                    return None;
                }
                t.action.get_mut(s)?.push(a);
            }
            ("G", [s, n, x]) => {
                t.goto.insert((ni(n)?, s.parse().ok()?), x.parse().ok()?);
            }
            ("L", [_, v]) => t.expect.push(v.split_whitespace().map(ti).collect::<Option<_>>()?),
            ("X", [s, x]) => {
                t.err_goto.insert(s.parse().ok()?, x.parse().ok()?);
            }
            ("V", [_, v]) => t.viable.push(v.split_whitespace().map(|x| x.parse().ok()).collect::<Option<_>>()?),
            ("P", [_, n, k]) => t.prods.push((ni(n)?, k.parse().ok()?)),
            ("S", [_, v]) => t.sem.push(match *v {
                "!" => None,
                v => Some(crate::tables::Sem {
                    effects: vec![],
                    value: term(&unesc(v)?),
                }),
            }),
            ("I", [p, a, b]) => {
                let p: usize = p.parse().ok()?;
                t.sem.get_mut(p)?.as_mut()?.effects.push((unesc(a)?, unesc(b)?));
            }
            _ => (),
        }
    }
    t.terms = terms;
    t.nts = nts;
    if t.action.iter().any(|r| r.len() != t.terms.len()) || t.expect.len() != t.action.len() {
        return None;
    }
    Some(t)
}
