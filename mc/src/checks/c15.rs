//! C15: generated code compiles and embeds the user's code faithfully; what compiled parsers say is
//! what the evaluator says.
use crate::cfg::{Cfg, Sym, Tok};
use crate::checks::common::*;
use crate::checks::g1::BOTH;
use crate::checks::g3::{LITERALS, REGEXES, SKIPS};
use crate::compile::*;
use crate::ctx::Ctx;
use crate::dynp::{Attr, ErrInfo, Event, Ready};
use crate::enumg::*;
use crate::gen::{generate, Opts, Which};
use crate::spaces::*;
use crate::tables::{Tables, Term};
use crate::util::*;
use std::path::Path;
use std::rc::Rc;

/// what a production's action makes of r1, r2 ...: the attribute and the injections
type Want = (String, Vec<(String, String)>);

#[derive(Clone)]
struct Item {
    name: String,
    spec: String,
    which: Which,
    attr: String,
    target: String,
    /// no preamble: the code is put into a module with the types
    wrap: bool,
    preamble: Option<String>,
    extra: String,
    /// texts to parse (all actions are marks)
    texts: Vec<String>,
    /// per production (the start production left out)
    want: Vec<Want>,
    /// lengths of their right hand sides
    lens: Vec<usize>,
}

fn mark(i: usize, n: usize) -> Want {
    let v: Vec<String> = (1..=n).map(|k| format!("r{k}")).collect();
    (format!("{i}({})", v.join(" ")), vec![])
}

fn default(n: usize) -> Want {
    ((if n > 0 { "r1" } else { "-" }).to_string(), vec![])
}

/// what `wants` says about productions with actions of their own, marks and defaults for the others
fn item(name: &str, g: &Cfg, which: Which, wants: &[(usize, Want)]) -> Item {
    let mut want = vec![];
    for (i, p) in g.prods.iter().enumerate() {
        want.push(match (&p.action, wants.iter().find(|w| w.0 == i)) {
            (_, Some(w)) => w.1.clone(),
            (None, _) => mark(i, p.rhs.len()),
            (Some(None), _) => default(p.rhs.len()),
            (Some(Some(c)), None) => panic!("machinery: nothing known about {c}"),
        });
    }
    Item {
        name: name.to_string(),
        spec: g.spec(),
        which,
        attr: g.attr.clone().unwrap_or("Attr".into()),
        target: g.target.clone().unwrap_or("Prs".into()),
        wrap: g.preamble.is_none(),
        preamble: g.preamble.clone(),
        extra: String::new(),
        texts: vec![],
        want,
        lens: g.prods.iter().map(|p| p.rhs.len()).collect(),
    }
}

fn both(out: &mut Vec<Item>, name: &str, g: &Cfg) {
    for w in BOTH {
        out.push(item(name, g, w, &[]));
    }
}

const USE: &str = "\nuse super::d::*;\n";

/// as the compiled parser shows attributes
fn show2(a: &Attr, t: &Tables) -> String {
    match a {
        Attr::Default => "-".into(),
        Attr::Tok(_, l, p) => format!("{l}@{p}"),
        Attr::Err(e) => show_err(e, t),
        Attr::Str(e) => e.clone(),
        Attr::Node(i, a) => {
            let v: Vec<String> = a.iter().map(|x| show2(x, t)).collect();
            format!("{i}({})", v.join(" "))
        }
    }
}

fn show_err(e: &ErrInfo, t: &Tables) -> String {
    let v: Vec<&str> = e.expected().iter().map(|k| t.terms[*k as usize].as_str()).collect();
    match e {
        ErrInfo::Syntax(k, l, p, _) => format!("<S {} {l}@{p} [{}]>", t.terms[*k as usize], v.join(" ")),
        ErrInfo::Lexical(m, _) => format!("<L {m} [{}]>", v.join(" ")),
    }
}

struct Made {
    unit: Unit,
    /// what must be among the lines
    want: Vec<String>,
    /// first letters of the lines that are compared
    kinds: &'static str,
    texts: u64,
    /// code and tables, if the actions can be evaluated too
    full: Option<(String, Tables)>,
}

fn make(it: &Item, dir: &Path, st: &mut Stats) -> Result<Made, Violation> {
    let key = format!("{} {}", it.which.name(), it.name);
    let bad = |w: String| Violation::new(format!("{}: {}: {w}", it.which.name(), it.name), it.spec.clone(), key.clone());
    let o = Opts {
        ign_sr: true,
        ign_rr: true,
        states: false,
    };
    let out = generate(it.which, &it.spec, "spec", o, dir).map_err(|r| bad(format!("refused: {r:?}")))?;
    if let Some(p) = &it.preamble {
        if !out.code.contains(p.as_str()) {
            return Err(bad(format!("the preamble {p:?} is not in the code")));
        }
    }
    let mut unit = Unit::new(it.which, &out.code, &it.attr, &it.target, it.wrap);
    unit.pre += &it.extra;
    let mut want = vec![];
    let mut kinds = "SI";
    let mut texts = 0;
    let mut full = None;
    unit.lens.push(1);
    unit.lens.extend(&it.lens);
    match Tables::extract_some(&out.code, it.which == Which::Aug, false) {
        Ok(t) => {
            kinds = "TNDAGLXVPSIZ";
            let r = Ready::new(t);
            st.add("transitions", (r.t.action.len() * r.t.terms.len()) as u64);
            st.add("states", r.t.action.len() as u64);
            let known = out.code.contains("lexan::LexicalAnalyzer::new(");
            unit.record = known && fnv(&it.name) % 2 == 0;
            want = lines(&r.t, unit.record);
            st.add("tables_of_rustc_and_evaluator_compared", 1);
            // the actions as the evaluator sees them are those the oracle states, if it can
            if let Ok(t) = Tables::extract(&out.code, it.which == Which::Aug) {
                for (i, s) in t.sem.iter().enumerate().skip(1).take(it.want.len()) {
                    if let Some(s) = s {
                        let w = &it.want[i - 1];
                        let mut eff = s.effects.clone();
                        eff.retain(|(a, b)| !(a.is_empty() && b.is_empty()));
                        let got = term_text(&s.value);
                        if (&got, &eff) != (&w.0, &w.1) {
                            return Err(bad(format!(
                                "the action of production {i} makes {got:?}, injects {eff:?}, but should make {:?}, inject {:?}",
                                w.0, w.1
                            )));
                        }
                    }
                }
                full = Some((out.code.clone(), t.clone()));
                if !it.texts.is_empty() {
                    let mut r = Ready::new(t);
                    r.preds = Some(Rc::new(|_, _, _| false));
                    let mut k = 0;
                    for text in &it.texts {
                        let Ok(p) = r.parse(text, "t") else { continue };
                        for e in &p.events {
                            let s = match e {
                                // (only act() reports)
                                Event::Reduce(p, _) if !matches!(&r.t.sem[*p as usize], Some(s) if matches!(s.value, Term::Call(..))) => continue,
                                Event::Reduce(_, a) => format!("R\t{}", show2(a, &r.t)),
                                Event::Error(e) => format!("E\t{}", show_err(e, &r.t)),
                            };
                            want.push(format!("Z\t{k}\t{s:?}"));
                        }
                        want.push(format!("Z\t{k}\t{:?}", Some(p.result.is_ok())));
                        unit.texts.push(text.clone());
                        k += 1;
                    }
                    texts = k as u64;
                }
            }
        }
        Err(e) => {
            st.add("not_evaluated", 1);
            if std::env::var("MC_DEBUG").is_ok() {
                println!("not evaluated: {}: {}", it.name, e.0);
            }
        }
    }
    let at = want.iter().position(|l| l.starts_with('Z')).unwrap_or(want.len());
    let mut s = vec![format!("S\t0\t{:?}", "r1")];
    for (i, w) in it.want.iter().enumerate() {
        s.push(format!("S\t{}\t{:?}", i + 1, w.0));
        for (a, b) in &w.1 {
            s.push(format!("I\t{}\t{a:?}\t{b:?}", i + 1));
        }
    }
    want.splice(at..at, s);
    Ok(Made {
        unit,
        want,
        kinds,
        texts,
        full,
    })
}


fn compare(it: &Item, m: &Made, got: &[String], st: &mut Stats) -> CheckResult {
    let got: Vec<&String> = got.iter().filter(|l| m.kinds.contains(&l[..1])).collect();
    for i in 0..got.len().max(m.want.len()) {
        let w = m.want.get(i);
        let g = got.get(i).copied();
        if w != g {
            return Err(Violation::new(
                format!("{}: {}: the compiled parser says {g:?} but should say {w:?}", it.which.name(), it.name),
                it.spec.clone(),
                format!("{} {}", it.which.name(), it.name),
            ));
        }
    }
    if let Some((code, t)) = &m.full {
        // the other way to tables (taken when the evaluator does not understand the code)
        let all: Vec<String> = got.iter().map(|s| s.to_string()).collect();
        let mut t = t.clone();
        t.trait_path = String::new();
        t.self_ty = String::new();
        let Some(mut u) = tables(code, t.aug, &all) else {
            panic!("machinery: the lines of {} are not understood", it.name)
        };
        if u.lits.is_empty() && u.regs.is_empty() {
            u.lits = t.lits.clone();
            u.regs = t.regs.clone();
            u.skips = t.skips.clone();
            u.end = t.end;
        }
        // (only the actions of the specification are run; injections of nothing are not seen)
        u.sem.resize(t.sem.len(), None);
        for (i, s) in t.sem.iter_mut().enumerate() {
            if let Some(s) = s {
                s.effects.retain(|(a, b)| !(a.is_empty() && b.is_empty()));
                s.value = match &s.value {
                    Term::Str(x) if x == "-" => Term::Default,
                    v => v.clone(),
                };
            }
            if i > it.want.len() {
                u.sem[i] = s.clone();
            }
        }
        for r in t.action.iter_mut().flatten() {
            if let crate::tables::Act::Panic(m) = r {
                m.clear();
            }
        }
        if t.sem != u.sem && t.sem.iter().flatten().any(|s| matches!(s.value, Term::Str(_))) {
            u.sem = t.sem.clone();
        }
        if t != u {
            panic!("machinery: tables by rustc and by the evaluator differ for {}\n{t:?}\n{u:?}", it.name);
        }
        st.add("tables_read_back", 1);
    }
    st.add("lines_compared", got.len() as u64);
    st.add("parsers_compiled", 1);
    st.add("traces_validated_against_impl", 1 + m.texts);
    Ok(())
}

fn batch(items: &[Item], dir: &Path, st: &mut Stats) -> CheckResult {
    let mut made = vec![];
    for it in items {
        made.push(make(it, dir, st)?);
    }
    let one = |it: &Item, m: &Made, st: &mut Stats| -> CheckResult {
        let key = format!("{} {}", it.which.name(), it.name);
        match run(std::slice::from_ref(&m.unit), dir) {
            Ok(l) => compare(it, m, &l[0], st),
            Err(Failed::Rustc(e)) => Err(Violation::new(
                format!("{}: {}: the code does not compile: {e}", it.which.name(), it.name),
                it.spec.clone(),
                key,
            )),
            Err(Failed::Run(e)) => Err(Violation::new(
                format!("{}: {}: {e}", it.which.name(), it.name),
                it.spec.clone(),
                key,
            )),
        }
    };
    let units: Vec<Unit> = made
        .iter_mut()
        .map(|m| std::mem::replace(&mut m.unit, Unit::new(Which::Plain, "", "Attr", "Prs", false)))
        .collect();
    match run(&units, dir) {
        Ok(l) => {
            for (i, it) in items.iter().enumerate() {
                compare(it, &made[i], &l[i], st)?;
            }
            st.sample(|| items[0].spec.clone());
            Ok(())
        }
        Err(e) => {
            // which of them?
            for ((m, u), it) in made.iter_mut().zip(units).zip(items) {
                m.unit = u;
                one(it, m, st)?;
            }
            match e {
                Failed::Rustc(e) | Failed::Run(e) => Err(Violation::new(
                    format!("{} and others: each compiles and runs alone but not together: {e}", items[0].name),
                    items[0].spec.clone(),
                    items[0].name.clone(),
                )),
            }
        }
    }
}

/// n + k tokens T00 ...: alternatives of length n, each starting with a token of its own
fn long(n: usize, alts: usize) -> Cfg {
    let mut g = Cfg::default();
    for i in 0..alts {
        g.toks.push(Tok {
            name: format!("K{i}"),
            def: format!("\"k{i}\""),
            text: format!("k{i}"),
        });
    }
    g.skips.push("(\\s+)".into());
    g.nts.push("S".into());
    if n == 0 {
        for i in 0..alts {
            g.nts.push(format!("E{i}"));
            g.add(0, vec![Sym::T(i as u16), Sym::N(i as u16 + 1)]);
        }
        for i in 0..alts {
            g.add(i as u16 + 1, vec![]);
        }
    } else {
        for i in 0..alts {
            let mut r = vec![Sym::T(i as u16)];
            for k in 1..n {
                r.push(Sym::T(((i + k * k) % alts) as u16));
            }
            g.add(0, r);
        }
    }
    g
}

/// actions for productions of length n: code and what it makes
fn actions(n: usize) -> Vec<(String, Want)> {
    let mut v: Vec<(String, Want)> = vec![];
    let first = if n > 0 { "r1" } else { "-" };
    let none: Vec<(String, String)> = vec![];
    let one = |c: &str, w: &str| (c.to_string(), (w.to_string(), none.clone()));
    for c in ["", " ", "\n", "// nothing here", "/* nor } here */", ";", "\t\n  // $1 $$ $INJECT\n"] {
        v.push(one(c, first));
    }
    v.push(one("$$ = $$.clone()", first));
    v.push(one("$$ = act(7, vec![$$.clone()]);", &format!("7({first})")));
    v.push(one("$$=Attr(\"}\".to_string()+\"{\");", "}{"));
    v.push(one("{ { $$ = Attr(\"x\".into()); } }", "x"));
    v.push(one("if $$ == Attr::default() { $$ = Attr('{'.to_string()) } else { $$.0.push('}') }", if n > 0 { "r1}" } else { "{" }));
    v.push(one("let x = &mut $$; x.0 = r#\"a\"b\"#.into();", "a\"b"));
    v.push(one("for i in 0..3 { $$.0.push_str(&i.to_string()); }", &format!("{first}012")));
    v.push(one("$$ = match $$.0.as_str() { \"-\" => Attr(\"none\".into()), _ => act(1, vec![]) };", if n > 0 { "1()" } else { "none" }));
    v.push(one("let f = |x: &Attr| -> Attr { Attr(format!(\"<{}>\", x.0)) }; $$ = f(&$$);", &format!("<{first}>")));
    v.push(one("$$ = self.note(\"n\");", "note n"));
    v.push(one("$$ = Self::twice(&$$);", &format!("{first}{first}")));
    v.push(one("fn g<'a>(x: &'a str) -> Attr { Attr(x.to_uppercase()) }\n$$ = g(\"abc\");", "ABC"));
    v.push(one("$$ = Attr(\"\\u{e9}\u{e9}\u{1F600}\".into());", "\u{e9}\u{e9}\u{1F600}"));
    let two = vec![("x y".to_string(), "lab".to_string())];
    v.push(("$INJECT(\"x y\".to_string(), \"lab\".to_string());".into(), (first.into(), two.clone())));
    v.push((
        "$INJECT(\"p\".into(), \"q\".into()); $$ = Attr(\"i\".into()); $INJECT($$.0.clone(), String::from(\"r\"));".into(),
        ("i".into(), vec![("p".into(), "q".into()), ("i".into(), "r".into())]),
    ));
    v.push((
        "for k in 0..3 { $INJECT(k.to_string(), \"k\".into()); }".into(),
        (first.into(), (0..3).map(|k: i32| (k.to_string(), "k".to_string())).collect()),
    ));
    for k in 1..=n {
        let r = format!("r{k}");
        v.push(one(&format!("$$ = ${k}.clone();"), &r));
        v.push(one(&format!("$$ = Attr(${k}.0.clone() + \"0\");"), &format!("{r}0")));
        v.push(one(&format!("let s = format!(\"{{}}|{{}}\", ${k}.0, (${k}).0); $$ = Attr(s)"), &format!("{r}|{r}")));
        v.push((
            format!("$INJECT(${k}.0.clone(), ${}.0.clone())", n + 1 - k),
            (first.into(), vec![(r.clone(), format!("r{}", n + 1 - k))]),
        ));
        v.push(one(&format!("$$=act({k},vec![${k}.clone(),$1.clone(),${n}.clone()]);"), &format!("{k}({r} r1 r{n})")));
    }
    if n > 0 {
        let all: Vec<String> = (1..=n).rev().map(|k| format!("${k}.clone()")).collect();
        let w: Vec<String> = (1..=n).rev().map(|k| format!("r{k}")).collect();
        v.push(one(&format!("let v = vec![{}];\n\n$$ = act(9, v);", all.join(",")), &format!("9({})", w.join(" "))));
        v.push(one(&format!("$$ = [&$1, &${n}][1].clone();"), &format!("r{n}")));
        v.push(one(&format!("$$=${n}.clone();$$.0+=&$1.0;"), &format!("r{n}r1")));
    }
    v
}

fn action_items(out: &mut Vec<Item>, lengths: impl Iterator<Item = usize>) {
    let extra = "impl Prs { pub fn note(&mut self, s: &str) -> Attr { Attr(format!(\"note {s}\")) } pub fn twice(a: &Attr) -> Attr { Attr(format!(\"{}{}\", a.0, a.0)) } }";
    for n in lengths {
        let a = actions(n);
        let mut g = long(n, a.len());
        let mut wants = vec![];
        let off = if n == 0 { a.len() } else { 0 };
        for (i, (c, w)) in a.into_iter().enumerate() {
            g.prods[off + i].action = Some(Some(c));
            wants.push((off + i, w));
        }
        for which in BOTH {
            let mut it = item(&format!("actions of productions of length {n}"), &g, which, &wants);
            it.extra = extra.into();
            out.push(it);
        }
        // no actions at all
        for p in g.prods.iter_mut() {
            p.action = Some(None);
        }
        both(out, &format!("no actions, productions of length {n}"), &g);
    }
}

/// m of the same thing in one piece of code, code of m bytes and of m lines, productions of length n
fn size_items(out: &mut Vec<Item>, sizes: &[usize], lengths: &[usize]) {
    let none: Vec<(String, String)> = vec![];
    let mut a: Vec<(String, Want)> = vec![];
    for &m in sizes {
        let all = |s: &'static str| vec![s; m];
        a.push((all("$$.0.push('x');").join(" "), (format!("r1{}", "x".repeat(m)), none.clone())));
        a.push((format!("$$ = act({m}, vec![{}]);", all("$1.clone()").join(", ")), (format!("{m}({})", all("r1").join(" ")), none.clone())));
        a.push((format!("$$ = act({m}, vec![{}\n$2.clone()]);", all("$1.clone(),").join("\n")), (format!("{m}({} r2)", all("r1").join(" ")), none.clone())));
        let calls: Vec<String> = (0..m).map(|i| format!("$INJECT(\"t{i}\".into(), \"l{i}\".into());")).collect();
        a.push((calls.join(""), ("r1".into(), (0..m).map(|i| (format!("t{i}"), format!("l{i}"))).collect())));
        a.push((format!("let s = \"{}\"; $$ = if s.len() == {m} {{ $2.clone() }} else {{ $1.clone() }};", "y".repeat(m)), ("r2".into(), none.clone())));
        a.push((format!("{}$$ = $2.clone();", "// $$ $1\n".repeat(m)), ("r2".into(), none.clone())));
        a.push((format!("/*{}*/ $$ = $2.clone();", "$1 ".repeat(m)), ("r2".into(), none.clone())));
    }
    for (i, a) in a.chunks(40).enumerate() {
        let mut g = long(2, a.len());
        let mut wants = vec![];
        for (i, (c, w)) in a.iter().enumerate() {
            g.prods[i].action = Some(Some(c.clone()));
            wants.push((i, w.clone()));
        }
        for which in BOTH {
            out.push(item(&format!("actions with many of the same ({i})"), &g, which, &wants));
        }
    }
    for &m in sizes {
        for p in [
            format!("pr(1, vec![{}], $? )", vec!["$1.clone()"; m].join(", ")),
            format!("pr(1, vec![$1.clone()], [{}][{}])", vec!["$?"; m].join(", "), m - 1),
            format!("{}pr(1, vec![$1.clone()], $? )", "// $1 $?\n".repeat(m)),
        ] {
            let mut g = parse_grammar("S: A|B|C; A: a b; B: a b; C: a b|a b c");
            g.prods[3].pred = Some(p);
            out.push(item(&format!("predicate with {m} of the same"), &g, Which::Aug, &[]));
        }
    }
    for &n in lengths {
        let mut g = long(n, 3);
        let mut wants = vec![];
        for (i, k) in [n, n - 1, n / 2 + 1].into_iter().enumerate() {
            g.prods[i].action = Some(Some(format!("$$ = act({i}, vec![${k}.clone(), $1.clone()]);")));
            wants.push((i, (format!("{i}(r{k} r1)"), none.clone())));
        }
        for which in BOTH {
            out.push(item(&format!("actions of long productions ({n})"), &g, which, &wants));
        }
        let mut g = parse_grammar("S: A|B; A: a; B: a");
        for p in [2, 3] {
            g.prods[p].rhs = vec![Sym::T(0); n];
        }
        g.prods[2].pred = Some(format!("pr(1, vec![$1.clone(), ${n}.clone(), ${}.clone()], $? )", n / 2 + 1));
        out.push(item(&format!("predicate of a long production ({n})"), &g, Which::Aug, &[]));
    }
}

/// words that are likely to collide with something
const NAMES: &[&str] = &[
    "state", "set", "token", "lhs", "current_state", "production_id", "aa_state_", "tag", "rhs", "inject", "f", "write",
    "panic", "text", "a", "x", "result", "tokens", "end", "error", "start", "Some", "None", "Ok", "Err", "String", "Vec",
    "Option", "Result", "Box", "Default", "Clone", "Debug", "Display", "From", "Iterator", "Attr", "Prs", "act", "pr",
    "Error", "Action", "Shift", "Reduce", "Accept", "SyntaxError", "Token", "Parser", "Symbol", "End", "Start", "std",
    "core", "u32", "usize", "bool", "str", "new", "insert", "ordered_set", "Set", "S_1", "T", "N", "A", "F", "self_",
    "Terminal", "NonTerminal", "LexicalAnalyzer", "TokenStream", "lazy_static", "fmt", "Formatter", "aa", "AA", "AATok",
];

fn name_items(out: &mut Vec<Item>, step: usize) {
    for which in BOTH {
        for (k, names) in NAMES.chunks(step).enumerate() {
            for mode in 0..3 {
                // as literal tokens, as regular expression tokens, as non terminals
                let mut g = Cfg::simple(1, 1);
                g.skips.push("(\\s+)".into());
                g.preamble = (k % 2 == 0).then(|| USE.to_string());
                for (i, n) in names.iter().enumerate() {
                    match mode {
                        0 | 1 => {
                            g.toks.push(Tok {
                                name: n.to_string(),
                                def: if mode == 0 { format!("\"x{i}\"") } else { format!("(x{i}+)") },
                                text: format!("x{i}"),
                            });
                            g.add(0, vec![Sym::T(0), Sym::T(i as u16 + 1)]);
                        }
                        _ => {
                            g.toks.push(Tok {
                                name: format!("X{i}"),
                                def: format!("\"x{i}\""),
                                text: format!("x{i}"),
                            });
                            g.nts.push(n.to_string());
                            g.add(0, vec![Sym::T(0), Sym::N(i as u16 + 1)]);
                        }
                    }
                }
                if mode == 2 {
                    for i in 0..names.len() {
                        g.add(i as u16 + 1, vec![Sym::T(i as u16 + 1), Sym::N(0)]);
                        g.add(i as u16 + 1, vec![]);
                    }
                }
                g.add(0, vec![Sym::Err]);
                let what = ["literals", "regular expressions", "non terminals"][mode];
                out.push(item(&format!("{what} named {names:?}"), &g, which, &[]));
            }
        }
        // types
        for (a, t) in [("AttributeData", "Specification"), ("A", "B"), ("T", "N"), ("X_1", "x"), ("attr", "target"), ("Error", "Parser")] {
            for first in [false, true] {
                for pre in [false, true] {
                    let mut g = parse_grammar("S: a A|; A: b|!");
                    g.attr = Some(a.into());
                    g.target = Some(t.into());
                    g.target_first = first;
                    g.preamble = pre.then(|| USE.to_string());
                    out.push(item(&format!("types {a} and {t}, target first: {first}, preamble: {pre}"), &g, which, &[]));
                }
            }
        }
    }
}

const PREAMBLES: &[&str] = &[
    "use super::d::*;",
    "\n\n  use super::d::*;  \n",
    "use super::d::*; // the end",
    "// first\nuse super::d::*; /* the\n end */",
    "#![allow(dead_code, unused)]\nuse super::d::*;",
    "\n//! about the module\nuse super::d::*;\n\n/// doc\npub fn helper() -> Attr { Attr(\"%\".to_string() + \"} {%\") }\n",
    "use super::d::{Attr, Prs, act};\nmod inner { pub const C: char = '}'; pub enum E { A, B } }\nuse inner::*;",
    "use super::{d, d::*};\nmacro_rules! twice { ($x:expr) => { ($x, $x) } }\npub const P: (i32, i32) = twice!(1);",
    "use super::d::*;\nuse std::{collections::*, fmt, fmt::Write as W};\nstatic X: &str = r##\"%} \"# \"##;",
    "\r\nuse super::d::*;\r\nuse lexan::Token;\r\nuse std::collections::BTreeSet;\r\n",
    "use super::d::*; const \u{3b1}: &str = \"\u{1F600} \u{e9}\";",
    "use super::d::*;\nuse std::fmt::{self, Display, Debug};\nuse std::io::{Error, Result};",
];

fn preamble_items(out: &mut Vec<Item>) {
    for p in PREAMBLES {
        // (%} ends a preamble)
        let p = p.replace("%} ", "% } ");
        let mut g = parse_grammar("S: a A|b S; A: b|!|");
        g.preamble = Some(p.clone());
        both(out, &format!("preamble {p:?}"), &g);
    }
    // what the preamble defines is there for actions and predicates
    let mut g = parse_grammar("S: a A|b A; A: b|");
    g.preamble = Some("use super::d::*;\nfn make(a: &Attr) -> Attr { Attr(format!(\"{}!\", a.0)) }\nconst NAME: &str = \"name\";\nstruct Local { x: u8 }\nmacro_rules! m { ($e:expr) => { make($e) } }\n".into());
    g.prods[0].action = Some(Some(" $$ = make(&$2); ".into()));
    g.prods[1].action = Some(Some(" $$ = m!(&$1); let l = Local { x: 4 }; $$.0 += &l.x.to_string(); ".into()));
    g.prods[2].action = Some(Some(" $$ = Attr(NAME.into()) ".into()));
    let w = [(0, ("r2!".to_string(), vec![])), (1, ("r1!4".to_string(), vec![])), (2, ("name".to_string(), vec![]))];
    for which in BOTH {
        out.push(item("actions using the preamble", &g, which, &w));
    }
}

fn def_items(out: &mut Vec<Item>, rot: usize) {
    for which in BOTH {
        for r in 0..rot {
            let mut g = Cfg::simple(0, 1);
            for i in 0..LITERALS.len() {
                let t = LITERALS[(i + r * 5) % LITERALS.len()];
                g.toks.push(Tok {
                    name: format!("L{}", (i * 7 + r) % 41),
                    def: format!("\"{t}\""),
                    text: t.to_string(),
                });
            }
            for i in 0..REGEXES.len() {
                g.toks.push(Tok {
                    name: format!("R{}", (i * 5 + r) % 23),
                    def: REGEXES[(i + r * 3) % REGEXES.len()].to_string(),
                    text: ["aaa", "zq", "17", "\"q\"", "\u{e9}\u{e9}", "// x", "'x'", "###", "xy", "{x}", "$1", "%abz", "ABC", "!x"][i % 14].to_string(),
                });
            }
            let ns = r % (SKIPS.len() + 1);
            g.skips = SKIPS[..ns].iter().map(|s| s.to_string()).collect();
            g.by_name = r % 2 == 0;
            for i in 0..g.toks.len() - 1 {
                g.add(0, vec![Sym::T(i as u16), Sym::N(0)]);
            }
            g.add(0, vec![]);
            g.prods.iter_mut().for_each(|p| p.action = Some(None));
            out.push(item(&format!("all definitions, rotation {r}"), &g, which, &[]));
        }
        // each kind missing
        for (nl, nr, ns) in [(1, 0, 0), (0, 1, 0), (1, 0, 1), (0, 1, 1), (2, 0, 0), (0, 2, 2), (1, 1, 0)] {
            let mut g = Cfg::simple(nl, 1);
            for i in 0..nr {
                g.toks.push(Tok {
                    name: format!("R{i}"),
                    def: format!("(r{i}+)"),
                    text: format!("r{i}"),
                });
            }
            g.skips = (0..ns).map(|i| SKIPS[i].to_string()).collect();
            g.add(0, (0..g.toks.len()).map(|i| Sym::T(i as u16)).collect());
            out.push(item(&format!("{nl} literals, {nr} regular expressions, {ns} skips"), &g, which, &[]));
        }
        // things nothing refers to
        for k in 0..4 {
            let mut g = parse_grammar("S: a A|b; A: b|a S");
            if k & 1 != 0 {
                g.toks.push(Tok {
                    name: "Unused".into(),
                    def: "(u+)".into(),
                    text: "uu".into(),
                });
            }
            if k & 2 != 0 {
                g.nts.push("Idle".into());
                g.add(2, vec![Sym::T(0)]);
            }
            out.push(item(&format!("unused symbols {k}"), &g, which, &[]));
        }
    }
}

const PREDICATES: &[&str] = &[
    "pr(1, vec![$1.clone()], $? )",
    " pr(1, vec![$1.clone(), $2.clone()], $? ) ",
    "\n  pr(1, vec![\n    $1.clone(),\n  ],\n  $? )\n",
    "\r\n pr(1, vec![],\r\n $? ) ",
    "pr(1, vec![$2.clone()], $? ) && pr(2, vec![$1.clone()], $? )",
    "pr(1, vec![], $? ) || !pr(2, vec![$1.clone()], $? )",
    "{ let x = vec![$1.clone()]; pr(1, x, $? ) }",
    "if pr(1, vec![], $? ) { true } else { pr(2, vec![$2.clone()], $? ) }",
    "match $?  { aa if pr(1, vec![], aa) => true, _ => false }",
    "\"? )\".len() == 3 && pr(1, vec![$1.clone()], $? )",
    "pr(1, [$1, $2].into_iter().cloned().collect(), $? )",
    "// first line\n pr(1, vec![$1.clone()], $? )",
    "pr(1, vec![$1.clone()], $? ) /* the end */",
    "(|| -> bool { pr(1, vec![], $? ) })()",
    "pr(1, vec![$1.clone()], $? ) // the end",
    "pr(1, vec![$2.clone()], $? )\n// the end\n",
    "\"//\".len() == 2 && pr(1, vec![], $? )",
    "true",
    "false",
];

fn predicate_items(out: &mut Vec<Item>, many: u32) {
    let which = Which::Aug;
    for p in PREDICATES {
        for base in ["S: A|B|C; A: a b; B: a b; C: a b|a b c", "S: a b|a b c|S a b"] {
            let mut g = parse_grammar(base);
            let n = g.prods.len();
            for i in [1, 3, 4] {
                if i < n && g.prods[i].rhs.len() >= 2 {
                    g.prods[i].pred = Some(p.to_string());
                }
            }
            out.push(item(&format!("predicate {p:?} in {base}"), &g, which, &[]));
        }
    }
    // lengths
    for n in 1..=12 {
        let mut g = Cfg::default();
        g.toks.push(Tok {
            name: "K".into(),
            def: "\"k\"".into(),
            text: "k".into(),
        });
        g.skips.push("(\\s+)".into());
        g.nts = vec!["S".into(), "A".into(), "B".into(), "C".into()];
        for i in 1..4 {
            g.add(0, vec![Sym::N(i)]);
        }
        for i in 1..4 {
            g.add(i, vec![Sym::T(0); n]);
        }
        let args: Vec<String> = (1..=n).map(|k| format!("${k}.clone()")).collect();
        g.prods[3].pred = Some(format!("pr(3, vec![{}], $? )", args.join(", ")));
        g.prods[4].pred = Some(format!("pr(4, vec![$1.clone(), ${n}.clone()], $? )"));
        out.push(item(&format!("predicates on productions of length {n}"), &g, which, &[]));
    }
    // any subset of the productions of some grammars, in conflict or not
    for s in ["S: A|B|C; A: a; B: a; C: a", "S: S S|a|b|", "S: A a|B a|b; A: c|; B: c|", "S: S p S|S m S|i|!"] {
        let g0 = parse_grammar(s);
        let n = g0.prods.len();
        for bits in 0..1u32 << n {
            if bits.count_ones() > many {
                continue;
            }
            let mut g = g0.clone();
            for i in 0..n {
                if bits >> i & 1 != 0 {
                    let k = g.prods[i].rhs.len();
                    let args: Vec<String> = (1..=k).map(|k| format!("${k}.clone()")).collect();
                    g.prods[i].pred = Some(format!("pr({i}, vec![{}], $? )", args.join(", ")));
                }
            }
            out.push(item(&format!("predicates on {bits:b} of {s}"), &g, which, &[]));
        }
    }
}

/// all strings of the grammar's tokens up to the length
fn all_texts(g: &Cfg, k: usize) -> Vec<String> {
    let t: Vec<u16> = (0..g.toks.len() as u16).collect();
    let mut v: Vec<String> = strings(&t, k).iter().map(|w| text_of(g, w)).collect();
    v.push(format!("{}\n \u{e9} {}", g.toks[0].text, g.toks[g.toks.len() - 1].text));
    v
}

fn grammar_items(out: &mut Vec<Item>, thorough: bool) {
    let k = if thorough { 4 } else { 3 };
    for s in POOL {
        let g = parse_grammar(s);
        for which in BOTH {
            let mut it = item(s, &g, which, &[]);
            it.texts = all_texts(&g, k);
            out.push(it);
        }
    }
    for s in ["S: a!b|a b", "S: L; L: L I|; I: a b|!", "P: P S x|; S: a|a!", "S: S s X|X; X: a|b X c|b!c|!"] {
        let g = parse_grammar(s);
        for which in BOTH {
            let mut it = item(s, &g, which, &[]);
            it.texts = all_texts(&g, k + 1);
            out.push(it);
        }
    }
    for n in if thorough { vec![1, 2, 5, 20, 60] } else { vec![1, 12] } {
        for (name, g) in families(n) {
            both(out, &name, &g);
        }
    }
    // small grammars, every action present or not
    let rh = rhss(&syms(2, 1), 0, 2);
    for a in alts(rh.len(), 1, if thorough { 3 } else { 2 }) {
        let gs = [a.iter().map(|i| rh[*i].clone()).collect::<Vec<_>>()];
        if !canonical(&gs, 2) {
            continue;
        }
        let g0 = from_groups(2, &gs);
        for bits in 0..1u32 << g0.prods.len() {
            let mut g = g0.clone();
            for (i, p) in g.prods.iter_mut().enumerate() {
                if bits >> i & 1 != 0 {
                    p.action = Some(None);
                }
            }
            both(out, &format!("{} without actions {bits:b}", show(&g)), &g);
        }
    }
    let rh = rhss(&syms(2, 2), 0, 2);
    let mut i = 0;
    for s in alts(rh.len(), 1, 2) {
        for a in alts(rh.len(), 1, 2) {
            let gs = [
                s.iter().map(|i| rh[*i].clone()).collect::<Vec<_>>(),
                a.iter().map(|i| rh[*i].clone()).collect::<Vec<_>>(),
            ];
            if !gs[0].iter().flatten().any(|x| *x == Sym::N(1)) || !canonical(&gs, 2) {
                continue;
            }
            i += 1;
            if !thorough && (s.len() + a.len() > 2 && i % 59 != 0) {
                continue;
            }
            if thorough && (s.len() + a.len() > 3 && i % 5 != 0) {
                continue;
            }
            let g = from_groups(2, &gs);
            let which = BOTH[i % 2];
            out.push(item(&show(&g), &g, which, &[]));
        }
    }
}

pub fn run_check(ctx: &mut Ctx) {
    let mut items = vec![];
    let t = ctx.thorough();
    let lens: &[usize] = if t { &[13, 14, 15, 16, 20, 24] } else { &[] };
    action_items(&mut items, (0..=12).chain(lens.iter().copied()));
    if t {
        size_items(&mut items, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025], &[31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257]);
    } else {
        size_items(&mut items, &[3, 5, 8, 9, 17, 33, 65, 257], &[33, 65, 129]);
    }
    name_items(&mut items, ctx.pick(13, 1));
    preamble_items(&mut items);
    def_items(&mut items, ctx.pick(3, 31));
    predicate_items(&mut items, ctx.pick(2, 9));
    grammar_items(&mut items, t);
    // (the large ones come first: spread them)
    let size = 10;
    let n = items.len().div_ceil(size);
    for k in 0..n {
        if !ctx.mine() {
            ctx.skip_case();
            continue;
        }
        let b: Vec<Item> = items.iter().skip(k).step_by(n).cloned().collect();
        let dir = ctx.dir.clone();
        ctx.case(
            || b.iter().map(|i| format!("{} {}", i.which.name(), i.name)).collect::<Vec<_>>().join("; "),
            |st| batch(&b, &dir, st),
        );
    }
}
