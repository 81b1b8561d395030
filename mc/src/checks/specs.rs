//! C16, C17, C23: specification texts (mistakes, damage, injection)
use crate::checks::g1::BOTH;
use crate::ctx::{no_panic, take_stderr, Ctx};
use crate::gen::{generate, Opts, Output, Refusal, Which};
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// a text with the places where errors ("@@") and warnings ("~~") are due
#[derive(Clone, Debug, Default)]
pub struct Marked {
    pub text: String,
    pub errors: Vec<(usize, usize)>,
    pub warnings: Vec<(usize, usize)>,
}

pub fn unmark(s: &str) -> Marked {
    let mut m = Marked::default();
    let (mut line, mut col) = (1, 1);
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if s[i..].starts_with("@@") {
            m.errors.push((line, col));
            it.next();
            continue;
        }
        if s[i..].starts_with("~~") {
            m.warnings.push((line, col));
            it.next();
            continue;
        }
        m.text.push(c);
        if c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += c.len_utf8();
        }
    }
    m
}

pub fn at(label: &str, p: &(usize, usize)) -> String {
    if label.is_empty() {
        format!("{}:{}", p.0, p.1)
    } else if label.contains(char::is_whitespace) {
        format!("\"{label}\":{}:{}", p.0, p.1)
    } else {
        format!("{label}:{}:{}", p.0, p.1)
    }
}

/// the places of the messages of a kind ("Error", "Warning"), sorted
pub fn messages(stderr: &str, kind: &str) -> Vec<String> {
    let k = format!(": {kind}: ");
    let mut v: Vec<String> = stderr
        .lines()
        .filter_map(|l| l.split_once(&k).map(|(a, _)| a.to_string()))
        .filter(|a| a.rsplit(':').take(2).all(|x| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit())))
        .collect();
    v.sort();
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Sec {
    Config,
    Token,
    Skip,
    Prec,
    Rule,
}
use Sec::*;

const SECS: [Sec; 5] = [Config, Token, Skip, Prec, Rule];

pub struct Base {
    pub items: BTreeMap<Sec, Vec<&'static str>>,
}

pub fn base() -> Base {
    let mut items = BTreeMap::new();
    items.insert(Config, vec!["%attr Attr", "%target Prs"]);
    items.insert(Token, vec!["%token TA \"a\"", "%token TB \"b\"", "%token TC (c+)", "%token TD (d+)"]);
    items.insert(Skip, vec!["%skip (\\s+)", "%skip (//[^\\n]*)"]);
    items.insert(Prec, vec!["%left TA", "%right \"b\" TAG"]);
    items.insert(
        Rule,
        vec![
            "S: A \"b\" !{ $$ = act(1, vec![$1.clone()]); !} | TC S %prec TAG | A TD %prec \"a\" .",
            "A: TA | \"b\" TC .",
        ],
    );
    Base { items }
}

pub struct Defect {
    pub name: &'static str,
    pub sec: Sec,
    /// positions in the section's items from which on it is a mistake
    pub from: usize,
    pub text: &'static str,
    /// symbols that are undefined because of it
    pub undefined: &'static [&'static str],
    /// at most one of these in a specification
    pub single: bool,
}

/// ('#' stands for a number different in each use)
pub fn catalogue() -> Vec<Defect> {
    let d = |name, sec, from, text| Defect {
        name,
        sec,
        from,
        text,
        undefined: &[],
        single: false,
    };
    let u = |name, text, undefined| Defect {
        name,
        sec: Rule,
        from: 0,
        text,
        undefined,
        single: false,
    };
    vec![
        d("token name used again (literal)", Token, 1, "%token @@TA \"x#\""),
        d("token name used again (regular expression)", Token, 4, "%token @@TD (x#y*)"),
        d("literal used again", Token, 1, "%token @@TX# \"a\""),
        d("regular expression used again", Token, 3, "%token @@TX# (c+)"),
        d("literal like a regular expression", Token, 3, "%token @@TX# \"(c+)\""),
        d("empty literal", Token, 0, "%token @@TX# \"\""),
        d("malformed regular expression", Token, 0, "%token TX# @@(c#[)"),
        d("malformed regular expression in parentheses", Token, 0, "%token TX# @@(x#(c)"),
        d("number too big", Config, 2, "%shift_reduce @@99999999999"),
        d("other number too big", Config, 2, "%reduce_reduce @@4294967296"),
        d("skip used again", Skip, 1, "%skip @@(\\s+)"),
        d("second skip used again", Skip, 2, "%skip @@(//[^\\n]*)"),
        d("skip like a token", Skip, 0, "%skip @@(d+)"),
        d("malformed skip", Skip, 0, "%skip @@(c#*[)"),
        d("unknown literal in precedence", Prec, 0, "%left @@\"zz\""),
        d("token given precedence again", Prec, 1, "%right @@TA"),
        d("literal given precedence again", Prec, 1, "%nonassoc @@\"a\""),
        d("literal given precedence again by name", Prec, 2, "%left @@TB"),
        d("tag given precedence again", Prec, 2, "%left @@TAG"),
        d("several in one precedence", Prec, 2, "%left @@\"a\" @@TB @@\"yy\""),
        u("undefined symbol", "X#: TC @@NOPE .", &["NOPE"]),
        u("undefined symbol used twice", "X#: @@NADA TC | TC @@NADA .", &["NADA"]),
        u("two undefined symbols", "X#: @@NOPE @@NIX .", &["NOPE", "NIX"]),
        d("unknown literal", Rule, 0, "X#: TC @@\"zz\" TC ."),
        d("two unknown literals", Rule, 0, "X#: @@\"zz\" | @@\"yy\" @@\"zz\"."),
        d("unknown tag", Rule, 0, "X#: TC %prec @@NOTAG ."),
        d("unknown literal as tag", Rule, 0, "X#: TC %prec @@\"zz\" !{ $$ = $1.clone(); !} ."),
        d("token on the left hand side", Rule, 0, "@@TC: TA TD ."),
        d("literal token on the left hand side", Rule, 0, "@@TA: TC | TD ."),
        d("missing file", Rule, 0, "%inject @@\"/nonexistent/rules\"."),
        d("missing file of tokens", Token, 0, "%inject @@\"/nonexistent/tokens\"."),
        d("missing file of precedences", Prec, 1, "%inject @@\"/nonexistent/x y\"."),
    ]
    .into_iter()
    .map(|mut x| {
        x.single = x.text.starts_with("%inject") || x.sec == Config;
        x
    })
    .collect()
}

pub const SEPS: &[&str] = &["\n", "\r\n", "\n/* é\n@ */ ", "\t// x \u{20ac}\n", "\n\n \t"];

pub fn render(items: &BTreeMap<Sec, Vec<String>>, preamble: &str, sep: &str) -> String {
    let mut s = preamble.to_string();
    for x in SECS {
        if matches!(x, Token | Rule) {
            s += "%%";
            s += sep;
        }
        for i in &items[&x] {
            s += i;
            s += sep;
        }
    }
    s
}

fn plain_items(b: &Base) -> BTreeMap<Sec, Vec<String>> {
    b.items.iter().map(|(k, v)| (*k, v.iter().map(|s| s.to_string()).collect())).collect()
}

/// a specification with the defects, at their positions (counted in the base's items)
pub struct Made {
    pub desc: String,
    pub spec: Marked,
    pub undefined: BTreeSet<&'static str>,
}

fn make(b: &Base, ds: &[(&Defect, usize)], pre: &str, sep: &str) -> Made {
    let mut items = plain_items(b);
    // from the back so that positions stay valid
    let mut v: Vec<(usize, &Defect, usize)> = ds.iter().enumerate().map(|(i, (d, p))| (i, *d, *p)).collect();
    v.sort_by_key(|x| (x.2, x.0));
    for (i, d, p) in v.into_iter().rev() {
        items.get_mut(&d.sec).unwrap().insert(p, d.text.replace('#', &i.to_string()));
    }
    Made {
        desc: ds.iter().map(|(d, p)| format!("{} ({:?} {p})", d.name, d.sec)).collect::<Vec<_>>().join(" and "),
        spec: unmark(&render(&items, pre, sep)),
        undefined: ds.iter().flat_map(|(d, _)| d.undefined.iter().copied()).collect(),
    }
}

fn places(b: &Base, d: &Defect) -> std::ops::RangeInclusive<usize> {
    d.from..=b.items[&d.sec].len()
}

/// all specifications with up to `n` defects (one: at every place)
fn combinations(n: usize) -> Vec<Made> {
    let b = base();
    let cat = catalogue();
    let mut out = vec![];
    let mut k = 0;
    let mut sep = || {
        k += 1;
        SEPS[k % SEPS.len()]
    };
    for d in &cat {
        for p in places(&b, d) {
            for s in SEPS {
                out.push(make(&b, &[(d, p)], if p % 2 == 0 { "" } else { "%{ use x::y; // é\n%}\n" }, s));
            }
        }
    }
    for m in 2..=n {
        // with repetition
        let mut stack: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..m {
            stack = stack
                .into_iter()
                .flat_map(|v| {
                    let lo = v.last().copied().unwrap_or(0);
                    (lo..cat.len()).map(move |i| {
                        let mut w = v.clone();
                        w.push(i);
                        w
                    })
                })
                .collect();
        }
        for v in stack {
            let ds: Vec<&Defect> = v.iter().map(|i| &cat[*i]).collect();
            let one = |s: Sec| ds.iter().filter(|d| d.single && d.sec == s).count() <= 1;
            if !SECS.iter().all(|s| one(*s)) || v.windows(2).any(|w| w[0] == w[1] && cat[w[0]].single) {
                continue;
            }
            // (a mistake about a token that has been redefined is not the same mistake any more)
            let about = |d: &Defect| d.text.contains("TA ") || d.text.contains("TA\n") || d.text.ends_with("TA") || d.text.contains("\"a\"");
            if ds.iter().any(|d| d.sec == Token && about(d)) && ds.iter().any(|d| d.sec == Prec && about(d)) {
                continue;
            }
            let last: Vec<(&Defect, usize)> = ds.iter().map(|d| (*d, *places(&b, d).end())).collect();
            if m == 2 {
                for p in places(&b, ds[0]) {
                    for q in places(&b, ds[1]) {
                        out.push(make(&b, &[(ds[0], p), (ds[1], q)], "", sep()));
                    }
                }
            } else {
                out.push(make(&b, &last, "", sep()));
                out.push(make(&b, &ds.iter().map(|d| (*d, d.from)).collect::<Vec<_>>(), "", sep()));
            }
        }
    }
    out
}

/// (description, text)
pub fn defective(n: usize) -> Vec<(String, String)> {
    combinations(n).into_iter().map(|m| (m.desc, m.spec.text)).collect()
}

fn expect(
    which: Which,
    m: &Marked,
    undefined: usize,
    label: &str,
    dir: &Path,
    desc: &str,
    check_warnings: bool,
    st: &mut Stats,
) -> CheckResult {
    take_stderr();
    let r = no_panic(|| generate(which, &m.text, label, Opts::default(), dir));
    let err = take_stderr();
    let bad = |e: String| {
        Violation::new(
            format!("{}: {desc}: {e}", which.name()),
            format!("{}\n--- printed\n{err}", m.text),
            format!("{} {desc} label {label:?}", which.name()),
        )
    };
    let r = r.map_err(|e| bad(format!("panic: {e}")))?;
    let mut want: Vec<String> = m.errors.iter().map(|p| at(label, p)).collect();
    want.sort();
    let got = messages(&err, "Error");
    if got != want {
        return Err(bad(format!("errors reported at {got:?} instead of {want:?} (result {:?})", r.as_ref().err())));
    }
    match &r {
        Ok(_) if want.is_empty() => (),
        Err(Refusal::Undefined(n)) if undefined > 0 && *n as usize == undefined => (),
        Err(Refusal::Errors(n)) if undefined == 0 && *n as usize == want.len() && !want.is_empty() => (),
        r => {
            return Err(bad(format!(
                "result {:?} for {} errors and {undefined} undefined symbols",
                r.as_ref().map(|_| "accepted"),
                want.len()
            )))
        }
    }
    if check_warnings {
        let mut want: Vec<String> = m.warnings.iter().map(|p| at(label, p)).collect();
        want.sort();
        let got = messages(&err, "Warning");
        if got != want {
            return Err(bad(format!("warnings at {got:?} instead of {want:?}")));
        }
    }
    st.add("states", 1);
    st.add("transitions", m.errors.len() as u64 + 1);
    st.add("traces_validated_against_impl", 1);
    Ok(())
}

const LABELS: [&str; 4] = ["spec", "my spec.laps", "", "/a/b.c/d"];

/// correct specifications with the warnings they cause
fn correct() -> Vec<(String, Marked)> {
    let b = base();
    let mut out = vec![];
    let mut add = |d: &str, items: &BTreeMap<Sec, Vec<String>>, pre: &str| {
        for s in SEPS {
            out.push((d.to_string(), unmark(&render(items, pre, s))));
        }
    };
    let with = |sec: Sec, pos: usize, t: &[&str]| {
        let mut i = plain_items(&b);
        for x in t.iter().rev() {
            i.get_mut(&sec).unwrap().insert(pos, x.to_string());
        }
        i
    };
    for pre in ["", "%{%}\n", "%{ a %% \"b\" ( é\n %token TA \"a\" \n%}", "/* x */ // y\n%{}%}\n"] {
        add("the base", &plain_items(&b), pre);
    }
    for swap in [false, true] {
        for ex in [
            &[][..],
            &["%shift_reduce 0"],
            &["%reduce_reduce 0"],
            &["%shift_reduce 0", "%reduce_reduce 00"],
            &["%reduce_reduce 0", "%shift_reduce 0000000000000000"],
        ] {
            let mut i = with(Config, 2, ex);
            if swap {
                i.get_mut(&Config).unwrap().swap(0, 1);
            }
            add(&format!("configuration {:?}", i[&Config]), &i, "");
        }
    }
    for p in 0..=4 {
        add("an unused token", &with(Token, p, &["%token ~~TX \"x\""]), "");
        add("an unused regular expression", &with(Token, p, &["%token ~~TX (x)"]), "");
        add("a reserved unused token name", &with(Token, p, &["%token ~~~~AAfoo \"x\""]), "");
        let mut i = with(Token, p, &["%token ~~aaTok \"x\"", "%token aTok \"y\"", "%token A_A (z)"]);
        i.get_mut(&Rule).unwrap().push("A: aaTok \"y\" | A_A .".into());
        add("used token with a reserved name", &i, "");
    }
    for p in 0..=2 {
        add("an unused tag", &with(Prec, p, &["%left ~~NTAG"]), "");
        add("unused tags", &with(Prec, p, &["%nonassoc ~~NTAG TC ~~tag2 TD"]), "");
        add("a reserved unused tag", &with(Prec, p, &["%right ~~~~AATAG"]), "");
        let mut i = with(Prec, p, &["%right ~~aaTAG"]);
        i.get_mut(&Rule).unwrap().push("A: TD TD %prec aaTAG .".into());
        add("a reserved tag", &i, "");
        add("an unused symbol", &with(Rule, p.max(1), &["~~XX: TC | TD ."]), "");
        add("an unused symbol using itself alone", &with(Rule, p.max(1), &["XX: TC XX | TD ."]), "");
        add("an unused symbol defined twice", &with(Rule, p.max(1), &["~~XX: TC .", "XX: TD ."]), "");
        add("another group", &with(Rule, p.max(1), &["S: TD TD ."]), "");
        add("a group using symbols", &with(Rule, p.max(1), &["S: LL TD .", "LL: TD | LL2 .", "LL2: TD TC ."]), "");
        add("%error", &with(Rule, p.max(1), &["S: TD %error ."]), "");
        add("a skip", &with(Skip, p, &["%skip (c)"]), "");
        add("skips", &with(Skip, p, &["%skip (e)", "%skip (f)", "%skip (((g)))"]), "");
        add("similar definitions", &with(Token, p, &["%token ~~TX \"c+\"", "%token ~~TY ((c+))", "%token ~~TZ \"aa\"", "%token ~~Ta \"A\""]), "");
    }
    let mut i = plain_items(&b);
    i.insert(Skip, vec![]);
    add("without skips", &i, "");
    i.insert(Prec, vec!["%left TAG".into()]);
    add("with one precedence", &i, "");
    out
}

pub fn c17(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    for (i, m) in combinations(ctx.pick(3, 4)).into_iter().enumerate() {
        if !ctx.mine() {
            ctx.skip_case();
            continue;
        }
        ctx.case(
            || m.desc.clone(),
            |st| {
                let label = LABELS[(i / 2) % LABELS.len()];
                for w in BOTH {
                    expect(w, &m.spec, m.undefined.len(), label, &dir, &m.desc, false, st)?;
                }
                st.sample(|| format!("{}: errors at {:?}", m.desc, m.spec.errors));
                Ok(())
            },
        );
    }
    for (i, (d, m)) in correct().into_iter().enumerate() {
        ctx.case(
            || d.clone(),
            |st| {
                for w in BOTH {
                    expect(w, &m, 0, LABELS[i % LABELS.len()], &dir, &d, true, st)?;
                }
                Ok(())
            },
        );
    }
    c17_many(ctx);
    c17_clashes(ctx);
}

/// many mistakes in one specification
fn c17_many(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let b = base();
    let cat = catalogue();
    let sizes = [2usize, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000];
    for n in sizes {
        if n > 600 && !ctx.thorough() {
            continue;
        }
        for (k, d) in cat.iter().enumerate() {
            if d.single {
                continue;
            }
            ctx.case(
                || format!("{n} times: {}", d.name),
                |st| {
                    let end = *places(&b, d).end();
                    let mut ds = vec![(d, end); n];
                    let mut m = make(&b, &ds, "", SEPS[(n + k) % SEPS.len()]);
                    m.desc = format!("{n} times: {}", d.name);
                    for w in BOTH {
                        expect(w, &m.spec, m.undefined.len(), LABELS[k % LABELS.len()], &dir, &m.desc, false, st)?;
                    }
                    // and another one, after or before them
                    let o = &cat[(k + n) % cat.len()];
                    let about = |d: &Defect| d.text.contains("TA ") || d.text.contains("TA\n") || d.text.ends_with("TA") || d.text.contains("\"a\"");
                    let secs = [d.sec, o.sec];
                    if n <= 65 && !(secs.contains(&Token) && secs.contains(&Prec) && about(d) && about(o)) {
                        ds.insert(0, (o, *places(&b, o).end()));
                        let mut m = make(&b, &ds, "", SEPS[(n + k) % SEPS.len()]);
                        m.desc = format!("{n} times: {} and {}", d.name, o.name);
                        for w in BOTH {
                            expect(w, &m.spec, m.undefined.len(), LABELS[k % LABELS.len()], &dir, &m.desc, false, st)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        // symbols that are not defined, each with a name of its own
        ctx.case(
            || format!("{n} undefined symbols"),
            |st| {
                for uses in 1..=2 {
                    let rule = |i: usize| format!("TC {}", format!("@@U{i} ").repeat(uses));
                    let mut items = plain_items(&b);
                    items.get_mut(&Rule).unwrap().push(format!("X: {}.", (0..n).map(rule).collect::<Vec<_>>().join("| ")));
                    let m = unmark(&render(&items, "", SEPS[n % SEPS.len()]));
                    for w in BOTH {
                        expect(w, &m, n, "spec", &dir, &format!("{n} undefined symbols used {uses} times"), false, st)?;
                    }
                }
                Ok(())
            },
        );
    }
}

/// every list of token definitions and skip rules sharing names and texts
fn c17_clashes(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    #[derive(Clone, Copy)]
    enum D {
        Lit(usize, &'static str),
        Reg(usize, &'static str),
        Skip(&'static str),
    }
    const PATS: [&str; 2] = ["(c+)", "(d)"];
    let mut toks = vec![];
    for n in 0..3 {
        for p in PATS {
            toks.push(D::Lit(n, p));
            toks.push(D::Reg(n, p));
        }
    }
    let skips: Vec<D> = PATS.iter().map(|p| D::Skip(p)).collect();
    let tail = strings(&skips, 3);
    let maxt = ctx.pick(3, 4);
    for ts in strings(&toks, maxt) {
        // (names in order of appearance)
        let mut seen = 0;
        let canonical = ts.iter().all(|d| match d {
            D::Lit(n, _) | D::Reg(n, _) => {
                let ok = *n <= seen;
                seen = seen.max(n + 1);
                ok
            }
            _ => true,
        });
        if !canonical {
            continue;
        }
        let ts = &ts;
        let tail = &tail;
        ctx.case(
            || {
                let f = |d: &D| match d {
                    D::Lit(n, p) => format!("T{n} {p:?}"),
                    D::Reg(n, p) => format!("T{n} {p}"),
                    D::Skip(p) => p.to_string(),
                };
                format!("tokens {:?} with all skips", ts.iter().map(f).collect::<Vec<_>>())
            },
            |st| {
                'tails: for tl in tail {
                    // accepted texts and names, and those of mistaken definitions
                    let mut names: BTreeSet<usize> = BTreeSet::new();
                    let (mut pats, mut bad): (BTreeSet<&str>, BTreeSet<&str>) = Default::default();
                    let mut t = "%attr Attr\n%target Prs\n%%\n%token TZ \"z\"\n".to_string();
                    for d in ts.iter().chain(tl) {
                        let (name, pat) = match d {
                            D::Lit(n, p) | D::Reg(n, p) => (Some(*n), *p),
                            D::Skip(p) => (None, *p),
                        };
                        let again = name.is_some_and(|n| !names.insert(n));
                        let wrong = again || pats.contains(pat);
                        if !wrong && bad.contains(pat) {
                            // (whether it is the same as something that was refused is open)
                            continue 'tails;
                        }
                        if wrong {
                            bad.insert(pat);
                        } else {
                            pats.insert(pat);
                        }
                        let m = if wrong { "@@" } else { "" };
                        t += &match d {
                            D::Lit(n, p) => format!("%token {m}T{n} \"{p}\"\n"),
                            D::Reg(n, p) => format!("%token {m}T{n} {p}\n"),
                            D::Skip(p) => format!("%skip {m}{p}\n"),
                        };
                    }
                    t += "%%\nS: TZ .\n";
                    let m = unmark(&t);
                    for w in BOTH {
                        expect(w, &m, 0, "spec", &dir, "definitions sharing names and texts", false, st)?;
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C16

pub const VOCAB: &[&str] = &[
    "%attr", "%target", "%token", "%left", "%right", "%nonassoc", "%prec", "%skip", "%error", "%inject", "%%", ":", "|", ".",
    "S", "A", "TA", "TAG", "AAError", "(c+)", "(", "\"a\"", "\"\"", "!{ $2 !}", "%{ x %}", "%reduce_reduce", "%shift_reduce", "7",
    "99999999999999999999", "?( true ?)", "@", "é", "//",
];

pub const CHARS: &[&str] = &[
    "\"", "(", ")", "%", "{", "}", "!", "$", "\\", "\n", "\r", " ", "?", ".", "|", ":", "/", "*", "0", "S", "é", "\u{feff}",
    "\0", "\u{2028}", "\u{1F600}", "\u{301}",
];

pub const SPEC_A: &str = "%{ use x; %}\n%attr Attr\n%target Prs\n%reduce_reduce 0\n%%\n%token TA \"a\"\n%token TB \"b\"\n%token TC (c+)\n%skip (\\s+)\n%left TA\n%right \"b\" TAG\n%%\nS: A \"b\" !{ $$ = act(0, vec![$1.clone()]); !} | TC S %prec TAG | A TC %prec \"a\" !{ $$ = act(1, vec![]); !} | TC %error .\nA: TA | .\n";
pub const SPEC_B: &str = "%attr A\n%target P\n%%\n%token TA \"a\"\n%token TB \"b\"\n%%\nS: A S ?( p($1) ?) !{ $$ = $1; !} | TB ?( q ?) | .\nA: TA ?( ?) | TA ?( $? ?) | TA !{ $INJECT(s, l); !} .\n";
const SPEC_C: &str = "%attr A\n%target P\n%%\n%token T \"a\"\n%%\nS: T S | .";

/// the tokens of a specification text, roughly, with what is between them
fn split(text: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    let upto = |i: usize, end: &str| -> usize {
        let e: Vec<char> = end.chars().collect();
        let mut j = i + 1;
        while j < b.len() {
            if b[j..].starts_with(&e) {
                return j + e.len();
            }
            j += 1;
        }
        b.len()
    };
    while i < b.len() {
        let rest: String = b[i..(i + 2).min(b.len())].iter().collect();
        let j = if rest == "%{" {
            upto(i, "%}")
        } else if rest == "!{" {
            upto(i, "!}")
        } else if rest == "?(" {
            upto(i, "?)")
        } else if rest == "%%" {
            i + 2
        } else if b[i] == '"' {
            upto(i, "\"")
        } else if b[i] == '(' {
            // (regular expressions end with their line)
            let mut j = i;
            while j < b.len() && b[j] != '\n' {
                j += 1;
            }
            j
        } else if b[i].is_alphanumeric() || b[i] == '%' {
            let mut j = i + 1;
            while j < b.len() && (b[j].is_alphanumeric() || b[j] == '_') {
                j += 1;
            }
            j
        } else {
            i + 1
        };
        if !b[i].is_whitespace() {
            v.push(b[i..j].iter().collect());
        }
        i = j;
    }
    v
}

fn join(v: &[String]) -> String {
    let mut s = String::new();
    for x in v {
        s += x;
        s.push(if x.starts_with('(') { '\n' } else { ' ' });
    }
    s
}

fn token_edits(v: &[String]) -> Vec<(String, Vec<String>)> {
    let mut out = vec![];
    for i in 0..=v.len() {
        if i < v.len() {
            let mut w = v.to_vec();
            w.remove(i);
            out.push((format!("without token {i}"), w));
            let mut w = v.to_vec();
            w.insert(i, v[i].clone());
            out.push((format!("token {i} twice"), w));
            out.push((format!("first {i} tokens"), v[..i].to_vec()));
            out.push((format!("from token {i}"), v[i..].to_vec()));
            for j in i + 1..v.len() {
                let mut w = v.to_vec();
                w.swap(i, j);
                out.push((format!("tokens {i} and {j} swapped"), w));
            }
        }
        for x in VOCAB {
            let mut w = v.to_vec();
            w.insert(i, x.to_string());
            out.push((format!("{x} inserted at {i}"), w));
            if i < v.len() {
                let mut w = v.to_vec();
                w[i] = x.to_string();
                out.push((format!("{x} instead of token {i}"), w));
            }
        }
    }
    out
}

/// damaged specifications: by tokens, by characters
pub fn edits(tokens: usize, chars: usize) -> Vec<(String, String)> {
    let mut out = vec![];
    for (n, s) in [("A", SPEC_A), ("B", SPEC_B)] {
        if tokens > 0 {
            for (d, v) in token_edits(&split(s)) {
                out.push((format!("{n}: {d}"), join(&v)));
            }
        }
        if chars > 0 {
            let c: Vec<char> = s.chars().collect();
            for i in 0..=c.len() {
                let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
                out.push((format!("{n}: first {i} characters"), a.clone()));
                out.push((format!("{n}: from character {i}"), b.clone()));
                if i < c.len() {
                    let r: String = c[i + 1..].iter().collect();
                    out.push((format!("{n}: without character {i}"), format!("{a}{r}")));
                    for x in CHARS {
                        out.push((format!("{n}: character {i} becomes {x:?}"), format!("{a}{x}{r}")));
                    }
                }
                for x in CHARS {
                    out.push((format!("{n}: {x:?} inserted at {i}"), format!("{a}{x}{b}")));
                }
            }
        }
    }
    out
}

fn survives(which: Which, text: &str, dir: &Path, desc: &str, st: &mut Stats) -> CheckResult {
    for o in [
        Opts {
            ign_sr: true,
            ign_rr: true,
            states: true,
        },
        Opts::default(),
    ] {
        let bad = |e: String| {
            Violation::new(
                format!("{}: {desc}: {e}", which.name()),
                text.to_string(),
                format!("{} {desc} {text:?}", which.name()),
            )
        };
        match no_panic(|| generate(which, text, "spec", o, dir)) {
            Err(e) => return Err(bad(format!("panic: {e}"))),
            Ok(Err(Refusal::Other(e))) => return Err(bad(format!("accepted but: {e}"))),
            Ok(Ok(out)) => {
                st.add("accepted", 1);
                if !out.code.contains("Parser<") || !out.code.trim_end().ends_with('}') {
                    return Err(bad("accepted but the code is incomplete".into()));
                }
                st.add("transitions", 1);
                break;
            }
            Ok(Err(_)) => {
                st.add("refused", 1);
                st.add("transitions", 1);
                if matches!(o.ign_sr, true) {
                    // nothing else can come of it without the waivers
                    break;
                }
            }
        }
    }
    st.add("states", 1);
    Ok(())
}

fn c16_case(ctx: &mut Ctx, d: &str, text: &str) {
    let dir = ctx.dir.clone();
    ctx.case(
        || d.to_string(),
        |st| {
            for w in BOTH {
                survives(w, text, &dir, d, st)?;
            }
            st.sample(|| format!("{d}: {text}"));
            Ok(())
        },
    );
}

fn rules(r: &str) -> String {
    format!("%attr A\n%target P\n%%\n%token TA \"a\"\n%token TB \"b\"\n%%\n{r}\n")
}

pub fn c16(ctx: &mut Ctx) {
    for (d, s) in edits(1, 1) {
        c16_case(ctx, &d, &s);
    }
    // every token sequence from the start
    let voc: Vec<String> = VOCAB.iter().map(|s| s.to_string()).collect();
    for v in strings(&voc, ctx.pick(3, 4)) {
        if !ctx.mine() {
            ctx.skip_case();
            continue;
        }
        c16_case(ctx, "a sequence of tokens", &join(&v));
    }
    // every short sequence of tokens as rules
    let voc: Vec<&str> = vec!["S", "TA", "A", ":", "|", ".", "%error", "%prec", "\"a\"", "\"q\"", "!{ $1 !}", "%inject"];
    for v in strings(&voc, ctx.pick(5, 6)) {
        if ctx.mine() {
            c16_case(ctx, "a sequence of tokens as rules", &rules(&v.join(" ")));
        } else {
            ctx.skip_case();
        }
        if ctx.mine() && v.len() < ctx.pick(5, 6) {
            c16_case(ctx, "a sequence of tokens in a group", &rules(&format!("S: {} .", v.join(" "))));
        } else {
            ctx.skip_case();
        }
    }
    // two mistakes by tokens in a small specification
    let v = split(SPEC_C);
    let first = token_edits(&v);
    for (d, w) in first.iter().step_by(ctx.pick(11, 1)) {
        for (e, x) in token_edits(w) {
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            c16_case(ctx, &format!("C: {d}, then {e}"), &join(&x));
        }
    }
    // grammars of every shape, productive or not, reachable or not
    let sy = ["TA", "S", "A", "B", "%error"];
    let r: Vec<String> = strings(&sy, 2).into_iter().map(|v| v.join(" ")).collect();
    let k = ctx.pick(2, 3);
    for (i, a) in r.iter().enumerate() {
        for b in &r {
            for c in &r {
                if i % 3 == 0 || k == 3 {
                    if !ctx.mine() {
                        ctx.skip_case();
                        continue;
                    }
                    c16_case(ctx, "three symbols", &rules(&format!("S: {a} .\nA: {b} .\nB: {c} .")));
                }
            }
            for c in &r {
                if !ctx.mine() {
                    ctx.skip_case();
                    continue;
                }
                c16_case(ctx, "two symbols", &rules(&format!("S: {a} | {b} .\nA: {c} .")));
            }
        }
    }
    // code in actions, predicates and the preamble
    let bits = ["$", "$$", "$0", "$1", "$2", "$9", "$99999999999999999999999", "$?", "$INJECT", "$é", "é", "{", "}", "\"", "'", "//", "/*", "#", "\n", "\\", "!", "?"];
    for v in strings(&bits, 2) {
        let s = v.concat();
        c16_case(ctx, &format!("code {s:?}"), &rules(&format!("S: TA TB ?({s} ?) !{{{s} !}} | !{{{s}!}} | TA ?({s}?) .")));
        c16_case(ctx, &format!("code without predicates {s:?}"), &rules(&format!("S: TA TB !{{{s} !}} | !{{{s}!}} .")));
        c16_case(ctx, &format!("preamble {s:?}"), &format!("%{{{s}%}}{}", rules("S: TA TB .")));
        c16_case(ctx, &format!("literal {s:?}"), &rules("S: TA TB .").replace("\"a\"", &format!("\"{s}\"")));
        c16_case(ctx, &format!("regular expression {s:?}"), &rules("S: TA TB .").replace("\"a\"", &format!("({s})")));
        c16_case(ctx, &format!("skip {s:?}"), &rules("S: TA TB .").replace("\"b\"\n", &format!("\"b\"\n%skip ({s})\n")));
    }
    // sizes
    for n in [1usize, 10, ctx.pick(60, 200)] {
        let chain: String = (0..n).map(|i| format!("N{i}: N{} TA | TB .\n", (i + 1) % n)).collect();
        c16_case(ctx, &format!("ring of {n}"), &rules(&chain));
        let chain: String = (0..n).map(|i| format!("N{i}: N{} .\n", (i + 1) % n)).collect();
        c16_case(ctx, &format!("unproductive ring of {n}"), &rules(&chain));
        let chain: String = (0..n).map(|i| format!("N{i}: N{} TA | .\n", i + 1)).collect();
        c16_case(ctx, &format!("chain of {n}"), &rules(&format!("{chain}N{n}: TB .")));
        c16_case(ctx, &format!("{n} symbols"), &rules(&format!("S: {} .", "TA ".repeat(n * 10))));
        let nul: String = (0..n).map(|i| format!("E{i} ")).collect();
        let def: String = (0..n).map(|i| format!("E{i}: TA | .\n")).collect();
        if n <= 60 {
            c16_case(ctx, &format!("{n} nullable symbols"), &rules(&format!("S: {nul}.\n{def}")));
        }
        let alts: String = (0..n * 3).map(|i| format!("| {}", "TA ".repeat(i % 7))).collect();
        c16_case(ctx, &format!("{} alternatives", n * 3), &rules(&format!("S: TB {alts}.")));
        let toks: String = (0..n * 10).map(|i| format!("%token T{i} \"t{i}\"\n")).collect();
        let us: String = (0..n * 10).map(|i| format!("| T{i} ")).collect();
        c16_case(ctx, &format!("{} tokens", n * 10), &rules(&format!("S: TB {us}.")).replace("%token TA", &format!("{toks}%token TA")));
        let re = format!("{}x{}", "(".repeat(n * 20), ")".repeat(n * 20));
        c16_case(ctx, &format!("{} nested groups", n * 20), &rules("S: TA TB .").replace("\"a\"", &re));
        let re = format!("(a{{{}}})", n * 100000);
        c16_case(ctx, &format!("repeated {} times", n * 100000), &rules("S: TA TB .").replace("\"a\"", &re));
        c16_case(ctx, &format!("long comment {n}"), &format!("/*{}*/{}", "é*\n".repeat(n * 300), rules("S: TA TB .")));
        c16_case(ctx, &format!("unended comment {n}"), &format!("{}/*{}", rules("S: TA TB ."), "é*\n".repeat(n * 30)));
        c16_case(ctx, &format!("unended code {n}"), &format!("{}!{{{}", rules("S: TA TB ."), "é!\n".repeat(n * 30)));
        c16_case(ctx, &format!("unexpected text {n}"), &format!("{}{}", "@é".repeat(n * 30), rules("S: TA TB .")));
    }
    // sizes at which widths change
    let mut nums: Vec<String> = crate::spaces::SIZES.iter().map(|n| n.to_string()).collect();
    for e in [8u32, 15, 16, 31, 32, 53, 63, 64, 127] {
        let x = 1u128 << e;
        nums.extend([(x - 1).to_string(), x.to_string(), (x + 1).to_string()]);
    }
    nums.extend(["000".into(), "001".into(), "340282366920938463463374607431768211456".into(), "9".repeat(60), "0".repeat(300) + "1"]);
    for x in &nums {
        c16_case(ctx, &format!("$ and {x}"), &rules(&format!("S: TA TB ?( ${x} ?) !{{ ${x}; !}} | !{{${x}!}} .")));
        c16_case(ctx, &format!("$ and {x} without predicates"), &rules(&format!("S: TA TB !{{ ${x}; !}} | !{{${x}!}} .")));
        for c in ["%shift_reduce", "%reduce_reduce"] {
            c16_case(ctx, &format!("{c} {x}"), &rules("S: TA TB .").replacen("%%", &format!("{c} {x}\n%%"), 1));
        }
    }
    for n in [65_535usize, 65_536, 65_537] {
        let name = "n".repeat(n);
        c16_case(ctx, &format!("names of length {n}"), &rules(&format!("S: {name} .\n{name}: TA .")));
        c16_case(ctx, &format!("literal of length {n}"), &rules("S: TA .").replace("\"a\"", &format!("\"{name}\"")));
        c16_case(ctx, &format!("regular expression of length {n}"), &rules("S: TA .").replace("\"a\"", &format!("({name})")));
        c16_case(ctx, &format!("{n} lines"), &format!("{}{} é", "\n".repeat(n), rules("S: TA TB .")));
        c16_case(ctx, &format!("{n} columns"), &rules(&format!("S: {} é", " ".repeat(n))));
        c16_case(ctx, &format!("action of length {n}"), &rules(&format!("S: TA TB !{{ {} !}} .", "$1 ".repeat(n / 3))));
        c16_case(ctx, &format!("predicate of length {n}"), &rules(&format!("S: TA TB ?( {} ?) .", "$1 ".repeat(n / 3))));
        c16_case(ctx, &format!("{n} levels"), &rules("S: TA TB .").replace("\"b\"\n", &format!("\"b\"\n{}", (0..n).map(|i| format!("%left TAG{i}\n")).collect::<String>())));
        c16_case(ctx, &format!("a production group {n} times"), &rules(&"S: TA TB .\n".repeat(n / 64)));
        c16_case(ctx, &format!("a skip rule {n} times"), &rules("S: TA TB .").replace("\"b\"\n", &format!("\"b\"\n{}", "%skip (q)\n".repeat(n))));
    }
    for n in crate::spaces::SIZES.iter().chain(&[511, 512, 513, 1000, 1023, 1024, 1025]) {
        let n = *n;
        let name = "n".repeat(n);
        c16_case(ctx, &format!("names of length {n}"), &rules(&format!("S: {name} .\n{name}: TA .")));
        c16_case(ctx, &format!("an undefined name of length {n}"), &rules(&format!("S: {name} .")));
        c16_case(ctx, &format!("literal of length {n}"), &rules("S: TA .").replace("\"a\"", &format!("\"{name}\"")));
        c16_case(ctx, &format!("an unknown literal of length {n}"), &rules(&format!("S: \"{name}\" .")));
        c16_case(ctx, &format!("unexpected text of length {n}"), &rules(&format!("S: {} TA .", "é".repeat(n))));
        c16_case(ctx, &format!("unexpected text of length {n} and 1"), &rules(&format!("S: {}@ TA .", "é".repeat(n))));
        c16_case(ctx, &format!("{n} pieces of unexpected text"), &rules(&format!("S: {} TA .", "@ ".repeat(n))));
        c16_case(ctx, &format!("{n} lines"), &format!("{}{} é", "\n".repeat(n), rules("S: TA TB .")));
        c16_case(ctx, &format!("{n} columns"), &rules(&format!("S: {} é", " ".repeat(n))));
        c16_case(ctx, &format!("{n} symbols of one alternative"), &rules(&format!("S: {} !{{ $1 ${n} !}} .", "TA ".repeat(n))));
        c16_case(ctx, &format!("{n} tags in one list"), &rules("S: TA TB .").replace("\"b\"\n", &format!("\"b\"\n%left {}\n", (0..n).map(|i| format!("TAG{i} ")).collect::<String>())));
        c16_case(ctx, &format!("a tag {n} times in one list"), &rules("S: TA TB .").replace("\"b\"\n", &format!("\"b\"\n%left {}\n", "TAG ".repeat(n))));
        c16_case(ctx, &format!("{n} levels"), &rules("S: TA TB .").replace("\"b\"\n", &format!("\"b\"\n{}", (0..n).map(|i| format!("%left TAG{i}\n")).collect::<String>())));
        c16_case(ctx, &format!("{n} sections"), &rules(&"%% ".repeat(n)));
        c16_case(ctx, &format!("{n} %error"), &rules(&format!("S: TA {}.", "| %error ".repeat(n))));
        c16_case(ctx, &format!("{n} %error in a row"), &rules(&format!("S: TA {}.", "%error ".repeat(n))));
        c16_case(ctx, &format!("{n} % prec"), &rules(&format!("S: TA {}.", "%prec TA ".repeat(n))));
        c16_case(ctx, &format!("{n} actions"), &rules(&format!("S: TA {}.", "!{ $1 !} ".repeat(n))));
        if n <= 300 {
            // files injecting one another, to the depth
            let dir = ctx.dir.clone();
            let file = |i: usize| dir.join(format!("deep{i}.inc")).to_string_lossy().into_owned();
            ctx.case(
                || format!("{n} nested injections"),
                |st| {
                    for last in [format!("F{n}: TA .\n"), format!("%inject \"{}\".\n", file(n / 2)), "%inject \"/nonexistent/x\".\n".into(), "@ ".into(), "".into()] {
                        for i in 0..n {
                            let t = format!("F{i}: TA .\n%inject \"{}\".\nG{i}: TB .\n", file(i + 1));
                            let _ = std::fs::write(file(i), t);
                        }
                        let _ = std::fs::write(file(n), &last);
                        let s = rules(&format!("S: TB .\n%inject \"{}\".", file(0)));
                        for w in BOTH {
                            survives(w, &s, &dir, &format!("{n} nested injections ending with {last:?}"), st)?;
                        }
                    }
                    for i in 0..=n {
                        let _ = std::fs::remove_file(file(i));
                    }
                    Ok(())
                },
            );
        }
    }
    // files that inject each other, in every way
    let n = 3;
    let dir = ctx.dir.clone();
    let file = |i: usize| dir.join(format!("rec{i}.inc")).to_string_lossy().into_owned();
    for bits in 0..(1u32 << (n * n)) {
        if !ctx.mine() {
            ctx.skip_case();
            continue;
        }
        ctx.case(
            || format!("injection graph {bits:b}"),
            |st| {
                for i in 0..n {
                    let mut t = format!("F{i}: TA .\n");
                    for j in 0..n {
                        if bits >> (i * n + j) & 1 == 1 {
                            t += &format!("%inject \"{}\".\n G{i}{j}: TA .\n", file(j));
                        }
                    }
                    let _ = std::fs::write(file(i), t);
                }
                let s = rules(&format!("S: TB .\n%inject \"{}\".", file(0)));
                for w in BOTH {
                    survives(w, &s, &dir, "files injecting each other", st)?;
                    // a cycle reachable from the first file is an error, otherwise it is fine
                    let edge = |i: usize, j: usize| bits >> (i * n + j) & 1 == 1;
                    fn cyc(i: usize, on: &mut Vec<usize>, edge: &dyn Fn(usize, usize) -> bool, n: usize) -> bool {
                        if on.contains(&i) {
                            return true;
                        }
                        on.push(i);
                        let r = (0..n).any(|j| edge(i, j) && cyc(j, on, edge, n));
                        on.pop();
                        r
                    }
                    let c = cyc(0, &mut vec![], &edge, n);
                    let ok = generate(w, &s, "spec", Opts { ign_sr: true, ign_rr: true, states: false }, &dir).is_ok();
                    if ok == c {
                        return Err(Violation::new(
                            format!("{}: files injecting each other ({bits:b}): recursive {c} accepted {ok}", w.name()),
                            s.clone(),
                            format!("graph {bits}"),
                        ));
                    }
                }
                Ok(())
            },
        );
    }
}

// ---------------------------------------------------------------- C23

/// the items of a specification in order; `true`: an injection is allowed before it
fn inj_items(variant: usize) -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = vec![];
    if variant & 1 == 1 {
        v.push(("%{ use x::{y}; // \"q\"\n%}".into(), true));
    }
    let first = !v.is_empty();
    let (a, t) = if variant & 2 == 0 { ("%attr Attr", "%target Prs") } else { ("%target Prs", "%attr Attr") };
    v.push((a.into(), first));
    v.push((t.into(), true));
    match variant / 4 % 3 {
        0 => (),
        1 => v.push(("%shift_reduce 0".into(), true)),
        _ => {
            v.push(("%reduce_reduce 0".into(), true));
            v.push(("%shift_reduce 0".into(), true));
        }
    }
    // (after a sole count the other one has to follow an injection)
    v.push(("%%".into(), variant / 4 % 3 != 1));
    for s in ["%token TA \"a\"", "%token TB \"b\"", "%token TC (c+)"] {
        v.push((s.into(), true));
    }
    if variant / 12 % 2 == 0 {
        v.push(("%skip (\\s+)".into(), true));
        v.push(("%skip (//[^\\n]*)".into(), true));
        v.push(("%left TA".into(), true));
        v.push(("%right \"b\" TAG".into(), true));
    } else {
        v.push(("%left TA TAG".into(), true));
    }
    v.push(("%%".into(), true));
    v.push(("S: A \"b\" !{ $$ = act(1, vec![$1.clone()]); !} | TC S %prec TAG.".into(), true));
    v.push(("A: TA | \"b\" TC | B .".into(), true));
    v.push(("B: TB TB TC | B TA %prec \"b\" .".into(), true));
    v
}

/// is a text whose items are replaced from `s` on acceptable to the grammar?
/// (the second "%%" preceded by an injection would need what follows it in the file)
#[derive(Clone, Debug)]
struct Cut {
    from: usize,
    to: usize,
}

/// texts of the main file and of the files, cutting out the (properly nested) stretches
fn cut(items: &[(String, bool)], cuts: &[Cut], names: &[String], sep: &str) -> Vec<String> {
    fn text(items: &[(String, bool)], from: usize, to: usize, me: Option<usize>, cuts: &[Cut], names: &[String], sep: &str) -> String {
        let mut s = String::new();
        let mut i = from;
        while i < to {
            // the outermost stretch that starts here (and is not this one or around it)
            let c = cuts
                .iter()
                .enumerate()
                .filter(|(k, c)| c.from == i && c.to <= to && Some(*k) != me && me.is_none_or(|m| (c.to - c.from, *k) < (cuts[m].to - cuts[m].from, m)))
                .max_by_key(|(k, c)| (c.to - c.from, *k));
            match c {
                Some((k, c)) => {
                    s += &format!("%inject \"{}\" .{sep}", names[k]);
                    i = c.to;
                }
                None => {
                    s += &items[i].0;
                    s += sep;
                    i += 1;
                }
            }
        }
        s
    }
    let mut v = vec![text(items, 0, items.len(), None, cuts, names, sep)];
    for (k, c) in cuts.iter().enumerate() {
        v.push(text(items, c.from, c.to, Some(k), cuts, names, sep));
    }
    v
}

fn compatible(a: &Cut, b: &Cut) -> bool {
    // disjoint, or one inside the other and not starting at the same place
    a.to <= b.from || b.to <= a.from || (a.from < b.from && b.to <= a.to) || (b.from < a.from && a.to <= b.to)
}

fn same(a: &Output, b: &Output) -> bool {
    a.code == b.code && a.states == b.states
}

/// contents of files injected more than once
const SHARED: &[(&str, usize)] = &[
    ("A: TA | TA TB.", 2),
    ("A: TA.\nA: TB TB.\n", 2),
    ("S: TB.", 2),
    ("A: Unknown.", 2),
    ("A: TA %prec \"+\".", 2),
    ("A: \"a\" \"zz\" !{ $$ = $1; !}.", 2),
];

pub fn c23(ctx: &mut Ctx) {
    let dir = ctx.dir.clone();
    let fname = |k: usize, style: usize| -> String {
        let n = match style % 7 {
            0 => format!("f{k}.inc"),
            1 => format!("f {k}.inc"),
            2 => format!("f{k}"),
            // from where the program runs, which is where the specification is
            3 => return format!("f{k}.inc"),
            4 => return format!("./f {k}.inc"),
            5 => return format!("sub/../f{k}"),
            _ => return format!("sub/é{k}.x.y"),
        };
        dir.join(n).to_string_lossy().into_owned()
    };
    let _ = std::fs::create_dir_all(dir.join("sub"));
    std::env::set_current_dir(&dir).expect("cd");
    let o = Opts {
        states: true,
        ..Opts::default()
    };
    let split_case = |ctx: &mut Ctx, variant: usize, cuts: &[Cut], style: usize| {
        if !ctx.mine() {
            ctx.skip_case();
            return;
        }
        let items = inj_items(variant);
        let sep = SEPS[style % SEPS.len()];
        ctx.case(
            || format!("variant {variant}, stretches {cuts:?}"),
            |st| {
                let names: Vec<String> = (0..cuts.len()).map(|k| fname(k, style)).collect();
                let whole = cut(&items, &[], &[], sep).remove(0);
                let parts = cut(&items, cuts, &names, sep);
                for (n, t) in names.iter().zip(&parts[1..]) {
                    std::fs::write(n, t).expect("write");
                }
                for w in BOTH {
                    let bad = |e: String| {
                        Violation::new(
                            format!("{}: injected stretches {cuts:?}: {e}", w.name()),
                            parts.join("\n--------\n"),
                            format!("{} {variant} {cuts:?}", w.name()),
                        )
                    };
                    let a = generate(w, &whole, "spec", o, &dir).map_err(|r| bad(format!("not even in place: {r:?}")))?;
                    take_stderr();
                    let r = no_panic(|| generate(w, &parts[0], "spec", o, &dir)).map_err(|e| bad(format!("panic: {e}")))?;
                    let err = take_stderr();
                    let b = r.map_err(|r| bad(format!("refused {r:?} {err}")))?;
                    if !same(&a, &b) {
                        return Err(bad("another parser than with the text in place".into()));
                    }
                    if !messages(&err, "Error").is_empty() {
                        return Err(bad(format!("errors {err}")));
                    }
                    st.add("transitions", cuts.len() as u64);
                    st.add("traces_validated_against_impl", 1);
                }
                st.add("states", 1);
                st.sample(|| parts.join("\n--------\n"));
                Ok(())
            },
        );
    };
    let mut style = 0;
    for variant in 0..24 {
        let items = inj_items(variant);
        let mut cs = vec![];
        for f in 0..items.len() {
            if items[f].1 {
                for t in f + 1..=items.len() {
                    cs.push(Cut { from: f, to: t });
                }
            }
        }
        for c in &cs {
            style += 1;
            split_case(ctx, variant, std::slice::from_ref(c), style);
        }
        if variant < ctx.pick(4, 24) || variant == 17 {
            for (i, a) in cs.iter().enumerate() {
                for b in &cs[i + 1..] {
                    if compatible(a, b) {
                        style += 1;
                        split_case(ctx, variant, &[a.clone(), b.clone()], style);
                    }
                }
            }
        }
        if variant == 1 || (ctx.thorough() && variant < 4) {
            // three levels, and neighbours
            let step = ctx.pick(7, 1);
            for (i, a) in cs.iter().enumerate() {
                for (j, b) in cs.iter().enumerate() {
                    if j <= i || !compatible(a, b) {
                        continue;
                    }
                    for (k, c) in cs.iter().enumerate() {
                        if k <= j || !compatible(a, c) || !compatible(b, c) || (i + j + k) % (step * 6) != 0 {
                            continue;
                        }
                        style += 1;
                        split_case(ctx, variant, &[a.clone(), b.clone(), c.clone()], style);
                    }
                }
            }
        }
    }
    // the same file at several places
    for (k, (content, places)) in SHARED.iter().enumerate() {
        for style in 0..7 {
            ctx.case(
                || format!("the file {content:?} at {places} places"),
                |st| {
                    let n = fname(k, style);
                    std::fs::write(&n, content).expect("write");
                    let (f0, f1) = (fname(10, style), fname(11, style + 1));
                    let inj = format!("%inject \"{n}\".");
                    let spec = |a: &str, b: &str| {
                        format!("%attr Attr\n%target Prs\n%%\n%token TA \"a\"\n%token TB \"b\"\n%%\n{a}\nB: TB.\n{b}\n")
                    };
                    let whole = spec(&format!("S: TA B.\n{content}"), content);
                    std::fs::write(&f0, format!("C: TB TA.\n{inj}\n")).expect("write");
                    std::fs::write(&f1, format!("D: TB.\n%inject \"{f0}\".\n")).expect("write");
                    let deep = [
                        // one after the other, in files at the same and at different depths
                        (spec("S: TA B.\n%inject \"F0\".", "E: TA.\n%inject \"F1\"."), 2),
                        (spec("S: TA B.\n%inject \"F1\".", "E: TA.\n%inject \"F0\"."), 2),
                        (spec(&format!("S: TA B.\n{inj}"), "E: TA.\n%inject \"F1\"."), 1),
                        (spec("S: TA B.\n%inject \"F1\".", &format!("E: TA.\n{inj}")), 1),
                    ];
                    let mut pairs = vec![(spec(&format!("S: TA B.\n{inj}"), &inj), whole)];
                    for (d, _) in &deep {
                        let mut a = d.clone();
                        let mut b = d.clone();
                        let t0 = format!("C: TB TA.\n{content}\n");
                        let t1 = format!("D: TB.\n{t0}");
                        a = a.replace("F0", &f0).replace("F1", &f1);
                        b = b.replace("%inject \"F0\".", &t0).replace("%inject \"F1\".", &t1).replace(&inj, content);
                        pairs.push((a, b));
                    }
                    for (a, b) in &pairs {
                        for w in BOTH {
                            let bad = |e: String| {
                                Violation::new(
                                    format!("{}: a file injected twice: {e}", w.name()),
                                    format!("{a}\n-------- in place\n{b}\n-------- {n}\n{content}"),
                                    format!("{} shared {k} {style} {a}", w.name()),
                                )
                            };
                            take_stderr();
                            let x = no_panic(|| generate(w, a, "spec", o, &dir)).map_err(|e| bad(format!("panic: {e}")))?;
                            let ex = messages(&take_stderr(), "Error").len();
                            let y = no_panic(|| generate(w, b, "spec", o, &dir)).map_err(|e| bad(format!("panic: {e}")))?;
                            let ey = messages(&take_stderr(), "Error").len();
                            let ok = match (&x, &y) {
                                (Ok(x), Ok(y)) => same(x, y),
                                (Err(x), Err(y)) => format!("{x:?}") == format!("{y:?}"),
                                _ => false,
                            };
                            if !ok || ex != ey {
                                return Err(bad(format!(
                                    "accepted {} with {ex} errors, but in place {} with {ey}: {:?} {:?}",
                                    x.is_ok(),
                                    y.is_ok(),
                                    x.err(),
                                    y.err()
                                )));
                            }
                            st.add("traces_validated_against_impl", 1);
                        }
                        st.add("states", 1);
                    }
                    st.sample(|| pairs[0].0.clone());
                    Ok(())
                },
            );
        }
    }
    // mistakes in injected text are reported there
    let cat = catalogue();
    let b = base();
    for (i, d) in cat.iter().enumerate() {
        for p in places(&b, d) {
            for lead in 0..3usize {
                for deep in [false, true] {
                    if d.text.starts_with("%inject") && (d.sec != Token || deep) && lead == 0 {
                        // two injections in a row are not allowed everywhere
                        continue;
                    }
                    if !ctx.mine() {
                        ctx.skip_case();
                        continue;
                    }
                    let sty = i + p + lead;
                    ctx.case(
                        || format!("{} at {p} in an injected file", d.name),
                        |st| {
                            let (f0, f1) = (fname(0, sty), fname(1, sty));
                            let mut items = plain_items(&b);
                            let sec = items.get_mut(&d.sec).unwrap();
                            // the file holds the item, `lead` items before it and one after it
                            let from = p.saturating_sub(lead);
                            if d.sec == Config && from == 0 {
                                return Ok(());
                            }
                            if d.text.starts_with("%inject") && (from == p || (deep && from + 1 == p)) {
                                return Ok(());
                            }
                            let to = (p + 1).min(sec.len());
                            let after = if d.sec == Config || to <= p { vec![] } else { sec[p..to].to_vec() };
                            let mut stretch: Vec<String> = sec[from..p].to_vec();
                            stretch.push(d.text.replace('#', "0"));
                            stretch.extend(after.clone());
                            let tail: Vec<String> = sec[p + after.len()..].to_vec();
                            sec.truncate(from);
                            sec.push(format!("%inject \"{f0}\" ."));
                            sec.extend(tail);
                            let sep = SEPS[sty % SEPS.len()];
                            let main = unmark(&render(&items, "", sep));
                            // (deep: the rest of the file from the second item on is in another file)
                            let mut files: Vec<(String, Marked)> = vec![];
                            if deep && stretch.len() > 1 {
                                let rest = stretch.split_off(1);
                                stretch.push(format!("%inject \"{f1}\"."));
                                files.push((f1.clone(), unmark(&(rest.join(sep) + sep))));
                            }
                            files.push((f0.clone(), unmark(&(stretch.join(sep) + sep))));
                            let mut want: Vec<String> = main.errors.iter().map(|p| at("spec", p)).collect();
                            for (n, m) in &files {
                                std::fs::write(n, &m.text).expect("write");
                                want.extend(m.errors.iter().map(|p| at(n, p)));
                            }
                            want.sort();
                            for w in BOTH {
                                take_stderr();
                                let r = no_panic(|| generate(w, &main.text, "spec", Opts::default(), &dir));
                                let err = take_stderr();
                                let bad = |e: String| {
                                    Violation::new(
                                        format!("{}: {} at {p} in an injected file: {e}", w.name(), d.name),
                                        format!("{}\n--- files {files:?}\n--- printed\n{err}", main.text),
                                        format!("{} {} {p} {lead} {deep}", w.name(), d.name),
                                    )
                                };
                                let r = r.map_err(|e| bad(format!("panic: {e}")))?;
                                let got = messages(&err, "Error");
                                if got != want {
                                    return Err(bad(format!("errors reported at {got:?} instead of {want:?} ({:?})", r.err())));
                                }
                                match r {
                                    Err(Refusal::Errors(_) | Refusal::Undefined(_)) => (),
                                    r => return Err(bad(format!("result {:?}", r.map(|_| "accepted")))),
                                }
                                st.add("states", 1);
                                st.add("traces_validated_against_impl", 1);
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    // syntax and lexical errors in injected text; files that cannot be read
    let starts: Vec<usize> = (0..inj_items(13).len()).filter(|i| inj_items(13)[*i].1).collect();
    for f in starts {
        for (k, (d, content)) in [
            ("a syntax error", Some("\n :\n")),
            ("unexpected text", Some("\n\n  @")),
            ("an empty file", Some("")),
            ("a missing file", None),
            ("a directory", None),
            ("a file that is not text", None),
        ]
        .into_iter()
        .enumerate()
        {
            ctx.case(
                || format!("{d} injected before item {f}"),
                |st| {
                    let items = inj_items(13);
                    let n = dir.join(format!("odd{k}")).to_string_lossy().into_owned();
                    let _ = std::fs::remove_dir_all(&n);
                    let _ = std::fs::remove_file(&n);
                    match (k, content) {
                        (_, Some(c)) => std::fs::write(&n, c).expect("write"),
                        (4, _) => std::fs::create_dir_all(&n).expect("dir"),
                        (5, _) => std::fs::write(&n, b"%token TX \"\xff\"\n").expect("write"),
                        _ => (),
                    }
                    let mut s = String::new();
                    for (i, it) in items.iter().enumerate() {
                        if i == f {
                            s += &format!("  %inject @@\"{n}\".\n");
                        }
                        s += &it.0;
                        s += "\n";
                    }
                    let m = unmark(&s);
                    for w in BOTH {
                        take_stderr();
                        let r = no_panic(|| generate(w, &m.text, "spec", Opts::default(), &dir));
                        let err = take_stderr();
                        let bad = |e: String| {
                            Violation::new(format!("{}: {d} injected: {e}", w.name()), format!("{}\n{err}", m.text), format!("{} {d} {f}", w.name()))
                        };
                        let r = r.map_err(|e| bad(format!("panic: {e}")))?;
                        if k < 2 {
                            let place = format!("{n}:{}", if k == 0 { "2:2" } else { "3:3" });
                            match r {
                                Err(Refusal::Parse(e)) if e.contains(&place) => (),
                                r => return Err(bad(format!("result {:?} instead of an error at {place}", r.map(|_| "accepted")))),
                            }
                        } else {
                            let want = vec![at("spec", &m.errors[0])];
                            let got = messages(&err, "Error");
                            if got != want || !matches!(r, Err(Refusal::Errors(1))) {
                                return Err(bad(format!("errors at {got:?} instead of {want:?}, {:?}", r.map(|_| "accepted"))));
                            }
                        }
                        st.add("states", 1);
                        st.add("traces_validated_against_impl", 1);
                    }
                    Ok(())
                },
            );
        }
    }
}
