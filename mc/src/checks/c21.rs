//! C21: the parser of specifications built into each library against the one generated from the
//! library's own grammar file
use crate::checks::specs::{edits, SPEC_A, SPEC_B};
use crate::ctx::{no_panic, Ctx};
use crate::dynp::{ErrInfo, Ready};
use crate::gen::{generate, Opts, Which};
use crate::tables::{Act, Tables};
use crate::util::*;
use std::collections::{BTreeSet, HashSet, VecDeque};

/// a syntax or lexical error as it is displayed
#[derive(Clone, Debug, PartialEq, Eq)]
struct Shown {
    token: String,
    lexeme: String,
    place: String,
    expected: BTreeSet<String>,
}

macro_rules! real_impl {
    ($name:ident, $lib:ident, $rt:ident) => {
        fn $name(text: &str) -> Result<(), Shown> {
            match $lib::grammar::Specification::new(text, "spec") {
                Ok(_) => Ok(()),
                Err($rt::Error::LexicalError(e, s)) => Err(Shown {
                    token: String::new(),
                    lexeme: String::new(),
                    place: e.to_string(),
                    expected: s.iter().map(|t| t.to_string()).collect(),
                }),
                Err($rt::Error::SyntaxError(t, s)) => Err(Shown {
                    token: t.tag().to_string(),
                    lexeme: t.lexeme().to_string(),
                    place: t.location().to_string(),
                    expected: s.iter().map(|t| t.to_string()).collect(),
                }),
            }
        }
    };
}
// (the library for plain parsers has a plain parser, the other one an augmented one)
real_impl!(real_plain, lalr1_lib, lalr1);
real_impl!(real_aug, alalr1_lib, alalr1);

struct Model {
    which: Which,
    gen: Ready,
}

fn strip(text: &str, open: &str, close: &str, by: &str) -> String {
    let mut o = String::new();
    let mut rest = text;
    while let Some(i) = rest.find(open) {
        let Some(j) = rest[i..].find(close) else { break };
        o += &rest[..i];
        o += by;
        rest = &rest[i + j + close.len()..];
    }
    o + rest
}

fn grammar_file(which: Which) -> &'static str {
    match which {
        Which::Plain => "/repo/lalr1_lib/src/parser.laps",
        Which::Aug => "/repo/alalr1_lib/src/parser.alaps",
    }
}

impl Model {
    /// from the grammar file, its actions left out (they do not influence what is accepted, except
    /// by injecting files, which none of the texts does)
    fn new(which: Which, dir: &std::path::Path) -> Result<Model, String> {
        let text = std::fs::read_to_string(grammar_file(which)).map_err(|e| format!("{}: {e}", grammar_file(which)))?;
        let text = strip(&text, "!{", "!}", "");
        let text = strip(&text, "?(", "?)", "?( pr(0, vec![$1.clone()], $? ) ?)");
        // (the code then does not depend on the library's types)
        let text = strip(&text, "%{", "%}", "");
        let out = generate(which, &text, "own", Opts::default(), dir).map_err(|e| format!("the grammar file is refused: {e:?}"))?;
        let word = |k: &str| {
            text.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).ok_or(format!("no {k}"))
        };
        let src = crate::fallback::Src {
            attr: &word("%attr")?,
            target: &word("%target")?,
            wrap: true,
        };
        let t = crate::fallback::extract(which, &out.code, &src, dir)?;
        let mut gen = Ready::new(t);
        gen.limit = 2_000_000;
        Ok(Model { which, gen })
    }

    fn shown(&self, e: &ErrInfo) -> Shown {
        let t = &self.gen.t;
        let ex = |v: &[u16]| v.iter().map(|x| t.term_disp[*x as usize].clone()).collect();
        match e {
            ErrInfo::Lexical(m, v) => Shown {
                token: String::new(),
                lexeme: String::new(),
                place: m.clone(),
                expected: ex(v),
            },
            ErrInfo::Syntax(k, l, p, v) => Shown {
                token: t.term_disp[*k as usize].clone(),
                lexeme: l.clone(),
                place: p.clone(),
                expected: ex(v),
            },
        }
    }

    fn compare(&self, text: &str, st: &mut Stats) -> CheckResult {
        st.add("texts", 1);
        st.add("traces_validated_against_impl", 1);
        let bad = |m: String| {
            Err(Violation::new(
                format!("{}: {m}", self.which.name()),
                format!("specification text:\n{text}"),
                format!("{} {text:?}", self.which.name()),
            ))
        };
        let want = match self.gen.parse(text, "spec") {
            Ok(r) => {
                st.add("transitions", r.steps);
                r.result.map_err(|e| self.shown(&e))
            }
            Err(e) => return bad(format!("the generated parser: {e}")),
        };
        let got = match no_panic(|| match self.which {
            Which::Plain => real_plain(text),
            Which::Aug => real_aug(text),
        }) {
            Ok(r) => r,
            Err(e) => return bad(format!("the library panics: {e}")),
        };
        if got.is_ok() {
            st.add("accepted", 1)
        }
        if got != want {
            return bad(format!("the library says {got:?} but the parser generated from its grammar file {want:?}"));
        }
        Ok(())
    }
}

/// the stack after a token, if it is accepted
fn feed(t: &Tables, stack: &[u32], tok: u16) -> Option<Vec<u32>> {
    let mut s = stack.to_vec();
    loop {
        let mut a = &t.action[*s.last().unwrap() as usize][tok as usize];
        // (both outcomes of a predicate of this grammar lead to the same left hand side)
        while let Act::Test(_, yes, _) = a {
            a = yes;
        }
        match a {
            Act::Shift(n) => {
                s.push(*n);
                return Some(s);
            }
            Act::Reduce(p) => {
                let (n, k) = t.prods[*p as usize];
                s.truncate(s.len() - k);
                let top = *s.last()?;
                s.push(*t.goto.get(&(n, top))?);
            }
            _ => return None,
        }
    }
}

fn lexeme(t: &Tables, tag: u16) -> Option<String> {
    if let Some((_, l)) = t.lits.iter().find(|(k, _)| *k == tag) {
        return Some(l.clone());
    }
    Some(
        match t.terms[tag as usize].as_str() {
            "RegEx" => "(x+)",
            "Literal" => "\"/nonexistent/l\"",
            "Ident" => "Id",
            "ActionCode" => "!{ a !}",
            "RustCode" => "%{ r %}",
            "NumberExpr" => "7",
            "PredicateExpr" => "?( p ?)",
            _ => return None,
        }
        .to_string(),
    )
}

/// the shortest token strings that lead to each different top of the stack (`depth` states), in the
/// generated automaton and, if it can be evaluated, that of the committed parser, side by side
fn access(g: &Tables, c: Option<&(Tables, Vec<u16>)>, depth: usize, limit: usize) -> Vec<Vec<u16>> {
    let toks: Vec<u16> = (0..g.terms.len() as u16).filter(|t| *t != g.end && lexeme(g, *t).is_some()).collect();
    let mut out = vec![];
    let mut seen = HashSet::new();
    type Conf = (Vec<u16>, Option<Vec<u32>>, Option<Vec<u32>>);
    let mut q: VecDeque<Conf> = VecDeque::new();
    q.push_back((vec![], Some(vec![0]), Some(vec![0])));
    while let Some((w, a, b)) = q.pop_front() {
        out.push(w.clone());
        if out.len() >= limit {
            break;
        }
        for t in &toks {
            let x = a.as_ref().and_then(|s| feed(g, s, *t));
            let y = b.as_ref().and_then(|s| c.and_then(|(c, map)| feed(c, s, map[*t as usize])));
            if x.is_none() && y.is_none() {
                continue;
            }
            let top = |s: &Option<Vec<u32>>| s.as_ref().map(|s| s[s.len().saturating_sub(depth)..].to_vec());
            if seen.insert((top(&x), top(&y))) {
                let mut w = w.clone();
                w.push(*t);
                q.push_back((w, x, y));
            }
        }
    }
    out
}

fn text_of(g: &Tables, w: &[u16]) -> String {
    let v: Vec<String> = w.iter().filter_map(|t| lexeme(g, *t)).collect();
    v.join("\n")
}

/// the committed parser's tables, if they can be evaluated, with the tags in terms of the generated one's
fn committed(g: &Tables, which: Which) -> Option<(Tables, Vec<u16>)> {
    let p = match which {
        Which::Plain => "/repo/lalr1_lib/src/parser.rs",
        Which::Aug => "/repo/alalr1_lib/src/parser.rs",
    };
    let code = std::fs::read_to_string(p).ok()?;
    let code = strip(&code, "Self::is_allowable_name(aa_attributes", ".matched_text())", "pr(0, vec![], 0)");
    let t = no_panic(|| Tables::extract_some(&code, which == Which::Aug, false).ok()).ok()??;
    let map: Option<Vec<u16>> = g.terms.iter().map(|n| t.term(n)).collect();
    Some((t, map?))
}

const ALPHABET: [&str; 14] = ["(", ")", "\\", "\"", "!", "{", "}", "?", "%", "/", "*", "\n", "a", "."];

pub fn run(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    for which in crate::checks::g1::BOTH {
        let m = match no_panic(|| Model::new(which, &dir)) {
            Ok(Ok(m)) => m,
            Ok(Err(e)) | Err(e) => {
                ctx.case(
                    || format!("{}: own grammar", which.name()),
                    |_| Err(Violation::new(format!("{}: {e}", which.name()), "", "")),
                );
                continue;
            }
        };
        let m = &m;
        let g = &m.gen.t;
        let com = committed(g, which);
        let words = access(g, com.as_ref(), ctx.pick(6, 10), ctx.pick(3_000, 30_000));
        let nterm = g.terms.len() as u16;
        ctx.case(
            || format!("{}: automata", which.name()),
            |st| {
                st.add("states", g.action.len() as u64);
                st.add("committed_parsers_evaluated", com.is_some() as u64);
                st.add("access_strings", words.len() as u64);
                for t in 0..nterm {
                    st.add("tokens_without_text", (t != g.end && lexeme(g, t).is_none()) as u64);
                }
                m.compare(SPEC_A, st)?;
                m.compare(if which == Which::Aug { SPEC_B } else { SPEC_A }, st)?;
                st.sample(|| format!("{}: {} states, {} access strings, the last: {}", which.name(), g.action.len(), words.len(), text_of(g, words.last().unwrap()).replace('\n', " ")));
                Ok(())
            },
        );
        let two = true;
        // every state in every short context, with every two tokens next
        for chunk in words.chunks(40) {
            ctx.case(
                || format!("{}: {}...", which.name(), text_of(g, &chunk[0]).replace('\n', " ")),
                |st| {
                    for w in chunk {
                        m.compare(&text_of(g, w), st)?;
                        for t in 0..nterm {
                            if t == g.end || lexeme(g, t).is_none() {
                                continue;
                            }
                            let mut w = w.clone();
                            w.push(t);
                            m.compare(&text_of(g, &w), st)?;
                            for u in if two { 0..nterm } else { 0..0 } {
                                if u != g.end && lexeme(g, u).is_some() {
                                    w.push(u);
                                    m.compare(&text_of(g, &w), st)?;
                                    w.pop();
                                }
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
        // every short string of tokens
        let toks: Vec<u16> = (0..nterm).filter(|t| *t != g.end && lexeme(g, *t).is_some()).collect();
        let starts: [&[&str]; 4] = [
            &[],
            &["%attr A", "%target P"],
            &["%attr A", "%target P", "%%", "%token X \"x\""],
            &["%attr A", "%target P", "%%", "%token X \"x\"", "%%", "S:"],
        ];
        let ends: [&str; 2] = ["", "%attr A\n%target P\n%%\n%token X \"x\"\n%%\nS: X .\n"];
        let len = ctx.pick(2, 3);
        for a in &starts {
            let a = a.join("\n");
            for t in &toks {
                ctx.case(
                    || format!("{}: after {a:?}: every string beginning with {}", which.name(), g.terms[*t as usize]),
                    |st| {
                        for s in strings(&toks, len) {
                            let mut w = vec![*t];
                            w.extend(s);
                            for e in if a.is_empty() { &ends[..] } else { &ends[..1] } {
                                m.compare(&format!("{a}\n{}\n{e}", text_of(g, &w)), st)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
        // damaged specifications
        for chunk in edits(1, 1).chunks(200) {
            ctx.case(
                || format!("{}: {}...", which.name(), chunk[0].0),
                |st| {
                    for (_, s) in chunk {
                        m.compare(s, st)?;
                    }
                    Ok(())
                },
            );
        }
        // every short string of characters, where a token is due
        let deep = ctx.pick(4, 5);
        for pre in ["", "%attr A\n%target P\n%%\n%token X ", "%attr A\n%target P\n%%\n%token X \"x\"\n%%\nS: X "] {
            let k = deep + pre.is_empty() as usize;
            for first in ALPHABET {
                for second in ALPHABET {
                    ctx.case(
                        || format!("{}: after {pre:?} characters beginning with {first:?} {second:?}", which.name()),
                        |st| {
                            for s in strings(&ALPHABET, k - 2) {
                                m.compare(&format!("{pre}{first}{second}{}", s.concat()), st)?;
                            }
                            m.compare(&format!("{pre}{first}"), st)
                        },
                    );
                }
            }
        }
    }
}
