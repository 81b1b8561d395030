//! C01 to C06: the lexical analyser against its definition
use crate::ctx::{no_panic, Ctx};
use crate::lexref::*;
use crate::util::*;
use lexan::{Error, LexicalAnalyzer, TokenStream};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct G(pub u16);
impl fmt::Display for G {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "G{}", self.0)
    }
}

pub const END: u16 = 99;

#[derive(Clone, Debug)]
pub struct Defs {
    pub lits: Vec<(u16, String)>,
    pub regs: Vec<(u16, String)>,
    pub skips: Vec<String>,
}

impl Defs {
    pub fn new(l: &[&str], r: &[&str], s: &[&str]) -> Defs {
        Defs {
            lits: l.iter().enumerate().map(|(i, x)| (i as u16, x.to_string())).collect(),
            // (tags descending so that definition order differs from tag order)
            regs: r.iter().enumerate().map(|(i, x)| (80 - i as u16, x.to_string())).collect(),
            skips: s.iter().map(|x| x.to_string()).collect(),
        }
    }
    pub fn distinct(&self) -> bool {
        let mut v: Vec<&String> =
            self.lits.iter().map(|x| &x.1).chain(self.regs.iter().map(|x| &x.1)).collect();
        v.extend(self.skips.iter());
        let n = v.len();
        v.sort();
        v.dedup();
        n == v.len()
    }
    pub fn real(&self, end: u16) -> LexicalAnalyzer<G> {
        let l: Vec<(G, &str)> = self.lits.iter().map(|(a, b)| (G(*a), b.as_str())).collect();
        let r: Vec<(G, &str)> = self.regs.iter().map(|(a, b)| (G(*a), b.as_str())).collect();
        let s: Vec<&str> = self.skips.iter().map(|a| a.as_str()).collect();
        LexicalAnalyzer::new(&l, &r, &s, G(end))
    }
    pub fn model(&self) -> LexRef {
        let l: Vec<(u16, &str)> = self.lits.iter().map(|(a, b)| (*a, b.as_str())).collect();
        let r: Vec<(u16, &str)> = self.regs.iter().map(|(a, b)| (*a, b.as_str())).collect();
        let s: Vec<&str> = self.skips.iter().map(|a| a.as_str()).collect();
        LexRef::new(&l, &r, &s)
    }
    pub fn show(&self) -> String {
        format!(
            "literals {:?} regexes {:?} skips {:?}",
            self.lits.iter().map(|x| &x.1).collect::<Vec<_>>(),
            self.regs.iter().map(|x| &x.1).collect::<Vec<_>>(),
            self.skips
        )
    }
}

/// everything observable about one element of a stream
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub what: OWhat,
    pub text: String,
    pub label: String,
    pub line: usize,
    pub offset: usize,
    pub shown_loc: String,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum OWhat {
    Tok(u16),
    Unexpected,
    Ambiguous(Vec<u16>),
    Advanced,
}

pub fn shown_loc(label: &str, line: usize, offset: usize) -> String {
    if label.is_empty() {
        format!("{line}:{offset}")
    } else if label.contains([' ', '\t']) {
        format!("\"{label}\":{line}:{offset}")
    } else {
        format!("{label}:{line}:{offset}")
    }
}

pub fn expect_of(p: &RefPiece, label: &str) -> Obs {
    Obs {
        what: match &p.what {
            What::Tok(g) => OWhat::Tok(*g),
            What::Unexpected => OWhat::Unexpected,
            What::Ambiguous(v) => OWhat::Ambiguous(v.clone()),
        },
        text: p.text.clone(),
        label: label.to_string(),
        line: p.line,
        offset: p.offset,
        shown_loc: shown_loc(label, p.line, p.offset),
    }
}

pub fn end_of(r: &RefText, label: &str) -> Obs {
    Obs {
        what: OWhat::Tok(END),
        text: String::new(),
        label: label.to_string(),
        line: r.end.0,
        offset: r.end.1,
        shown_loc: shown_loc(label, r.end.0, r.end.1),
    }
}

pub fn observe(r: Result<lexan::Token<G>, Error<G>>) -> Obs {
    let mk = |what, text: &str, l: &lexan::Location| Obs {
        what,
        text: text.to_string(),
        label: l.label().clone(),
        line: l.line_number(),
        offset: l.offset(),
        shown_loc: l.to_string(),
    };
    match r {
        Ok(t) => mk(OWhat::Tok(t.tag().0), t.lexeme(), t.location()),
        Err(Error::UnexpectedText(s, l)) => mk(OWhat::Unexpected, &s, &l),
        Err(Error::AmbiguousMatches(v, s, l)) => {
            mk(OWhat::Ambiguous(v.0.iter().map(|g| g.0).collect()), &s, &l)
        }
        Err(Error::AdvancedWhenEmpty(l)) => mk(OWhat::Advanced, "", &l),
    }
}

fn viol(how: String, d: &Defs, text: &str) -> Violation {
    Violation::new(
        format!("{} text {text:?}: {how}", d.show()),
        "",
        format!("{} {text:?}", d.show()),
    )
}

/// the whole stream of a text, front by front, ending with the end marker
fn all(an: &LexicalAnalyzer<G>, text: &str, label: &str) -> Result<Vec<Obs>, String> {
    let mut s = an.token_stream(text, label);
    let mut v = vec![];
    loop {
        let o = observe(s.front());
        let last = s.is_empty();
        v.push(o);
        if last {
            return Ok(v);
        }
        if v.len() > text.len() + 2 {
            return Err(format!("does not end: {v:?}"));
        }
        s.advance();
    }
}

/// compares streams of all texts with the model
fn compare(
    d: &Defs,
    an: &LexicalAnalyzer<G>,
    rf: &LexRef,
    texts: &[String],
    label: &str,
    st: &mut Stats,
) -> CheckResult {
    for t in texts {
        let r = rf.run(t);
        let mut want: Vec<Obs> = r.pieces.iter().map(|p| expect_of(p, label)).collect();
        want.push(end_of(&r, label));
        let got = match no_panic(|| all(an, t, label)) {
            Ok(Ok(g)) => g,
            Ok(Err(e)) => return Err(viol(e, d, t)),
            Err(e) => return Err(viol(format!("panic: {e}"), d, t)),
        };
        if got != want {
            let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
            return Err(viol(
                format!("element {i} is {:?} but should be {:?}", got.get(i), want.get(i)),
                d,
                t,
            ));
        }
        st.add("traces_validated_against_impl", 1);
        st.add("transitions", got.len() as u64 - 1);
        st.add("states", got.len() as u64);
        for o in &got {
            match o.what {
                OWhat::Unexpected => st.add("unexpected_pieces", 1),
                OWhat::Ambiguous(_) => st.add("ambiguous_pieces", 1),
                _ => (),
            }
        }
    }
    st.sample(|| {
        let t = &texts[texts.len() * 2 / 3];
        format!("{}: {} texts, e.g. {t:?} -> {:?}", d.show(), texts.len(), rf.run(t).pieces)
    });
    Ok(())
}

fn strs(alpha: &[char], k: usize) -> Vec<String> {
    strings(alpha, k).into_iter().map(|v| v.into_iter().collect()).collect()
}

fn lexicon_case(ctx: &mut Ctx, d: Defs, texts: &[String], label: &str) {
    if !d.distinct() {
        return;
    }
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    ctx.case(
        || d.show(),
        |st| {
            st.add("lexicons", 1);
            let an = d.real(END);
            compare(&d, &an, &d.model(), texts, label, st)
        },
    );
}

pub fn c01(ctx: &mut Ctx) {
    let lits = ["a", "ab", "abc", "b", "bc", "ca", " b"];
    let regs = [
        "a+", "(ab)", "a|ab", "ab|a", "[ab]+", "(ab)+", "a?b", ".", "a+?", "[^ ]+", "b|ac", "b|c a",
        "a b", "[a-b][b-c]", "(a|b)c|ab",
    ];
    let skips: Vec<Vec<&str>> = vec![vec![], vec![" +"], vec![" ", "c"], vec!["c( )*|  "]];
    let texts = strs(&['a', 'b', 'c', ' '], ctx.pick(5, 6));
    let nl = ctx.pick(2, 3);
    for lk in 0..=nl {
        for l in combos(lits.len(), lk) {
            let l: Vec<&str> = l.iter().map(|i| lits[*i]).collect();
            for rk in 0..=ctx.pick(2, if lk <= 1 { 3 } else { 2 }) {
                for r in arrangements(regs.len(), rk) {
                    let r: Vec<&str> = r.iter().map(|i| regs[*i]).collect();
                    // (all skip lists with every pair; thorough only those without/with blanks for triples)
                    for (k, s) in skips.iter().enumerate() {
                        if rk == 3 && k > 1 {
                            continue;
                        }
                        if ctx.tier == crate::ctx::Tier::Quick && rk == 2 && lk == 2 && k != 1 {
                            continue;
                        }
                        lexicon_case(ctx, Defs::new(&l, &r, s), &texts, "t");
                    }
                }
            }
        }
    }
    // longer texts for a few lexicons, one with many definitions
    let long = strs(&['a', 'b', 'c', ' '], ctx.pick(7, 9));
    for chunk in long.chunks(2000) {
        for (l, r, s) in [
            (vec!["ab", "abc", "b"], vec!["[ab]+", "a+"], vec![" +"]),
            (vec!["a", "aab", "bca", "c c"], vec!["a|ab", "(bc)+", "c?a"], vec![" "]),
            (vec![], vec!["a+b", "a+", "b+c?"], vec!["  ", "c"]),
        ] {
            lexicon_case(ctx, Defs::new(&l, &r, &s), chunk, "t");
        }
    }
    // many definitions: n literals that are prefixes of one another, n regular expressions
    for n in 1..ctx.pick(12, 30) {
        let l: Vec<String> = (1..=n).map(|i| "ab".repeat(i)).collect();
        let r: Vec<String> = (1..=n).map(|i| format!("{}c?b*", "ab".repeat(i) + "a")).collect();
        let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
        let r: Vec<&str> = r.iter().map(|s| s.as_str()).collect();
        let mut texts = vec![];
        for i in 0..=n + 1 {
            for t in ["", "a", "ac", "acb", "acc", "b", "c", "abbab", " ab"] {
                texts.push(format!("{}{t}", "ab".repeat(i)));
            }
        }
        lexicon_case(ctx, Defs::new(&l, &r, &["( )+"]), &texts, "t");
    }
    c01_sizes(ctx);
    // the patterns of the tools' own lexers
    let own = [
        "(%\\{(.|[\\n\\r])*?%\\})",
        "(\\?\\((.|[\\n\\r])*?\\?\\))",
        "(!\\{(.|[\\n\\r])*?!\\})",
        "(\"\\S+\")",
        "([a-zA-Z]+[a-zA-Z0-9_]*)",
        "(\\(.+\\)(\\s))",
    ];
    let texts = strs(&['%', '{', '}', 'a', '"', ' ', '\n'], ctx.pick(5, 6));
    for chunk in texts.chunks(1500) {
        lexicon_case(
            ctx,
            Defs::new(
                &["%{", "%%", "a", ":", "%error"],
                &own,
                &["(/\\*(.|[\\n\\r])*?\\*/)", "(//[^\\n\\r]*)", "(\\s+)"],
            ),
            chunk,
            "t",
        );
    }
}

/// sizes at which widths change: of lexemes, of lists of definitions, of ambiguities
fn c01_sizes(ctx: &mut Ctx) {
    let mut lens: Vec<usize> = crate::spaces::SIZES.to_vec();
    lens.extend([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]);
    if ctx.thorough() {
        lens.extend([8191, 8192, 8193, 65_535, 65_536, 65_537]);
    }
    for n in lens {
        let a = "a".repeat(n);
        let mut texts = vec![];
        for m in [1, n - 1, n, n + 1, 2 * n, 2 * n + 1] {
            for (x, y) in [("", ""), ("c", ""), ("", "c"), ("", "b"), ("b", "b"), ("", "?a")] {
                texts.push(format!("{x}{}{y}", "a".repeat(m)));
            }
        }
        let long = a.as_str();
        let with_b = format!("{a}b");
        for (l, r, s) in [
            (vec![long], vec!["a+"], vec![]),
            (vec![long], vec!["a+b"], vec!["c+"]),
            (vec![long, "b", "a"], vec![], vec![]),
            (vec![long], vec!["(aa)+", "(aaa)+"], vec![]),
            (vec![], vec!["(aa)+", "a(aa)*", "b"], vec![]),
            (vec![long, with_b.as_str()], vec!["b?a+b?"], vec!["\\?+"]),
            (vec!["b"], vec!["c"], vec!["a+", "\\?a"]),
            (vec!["b"], vec!["c"], vec![]),
        ] {
            lexicon_case(ctx, Defs::new(&l, &r, &s), &texts, "t");
        }
    }
    for n in crate::spaces::SIZES {
        let n = *n;
        let words = |c: &str, e: &str| -> Vec<String> { (0..n).map(|i| format!("{c}{i}{e}")).collect() };
        let (l, r, s) = (words("l", ""), words("r", "[xy]*"), words("s", "( )*"));
        let same: Vec<String> = words("(a|b", ")+");
        let refs = |v: &'_ Vec<String>| -> Vec<String> { v.clone() };
        let mut texts = vec![];
        for i in 0..=n {
            if crate::spaces::near(i, n) {
                for t in ["l@", "l@0", "r@", "r@xy", "r@xl@", "s@", "s@ l@", "l@s@s@r@x", "a", "ab@", "b@", "b@b@a", "b@l", "?@", "r@r"] {
                    texts.push(t.replace('@', &i.to_string()));
                }
            }
        }
        for which in 0..8usize {
            let pick = |on: bool, v: &Vec<String>| if on { refs(v) } else { vec![] };
            let d = Defs {
                lits: pick(which & 1 != 0, &l).into_iter().enumerate().map(|(i, x)| (i as u16 + 100, x)).collect(),
                regs: if which & 6 == 6 { same.clone() } else { pick(which & 2 != 0, &r) }
                    .into_iter()
                    .enumerate()
                    .map(|(i, x)| (900 - i as u16, x))
                    .collect(),
                skips: pick(which & 4 != 0, &s),
            };
            if n > 129 && which == 7 && !ctx.thorough() {
                continue;
            }
            lexicon_case(ctx, d, &texts, "t");
        }
    }
}

pub fn c02(ctx: &mut Ctx) {
    let lits = ["a", "é", "è ", "€", "aé"];
    let regs = [
        "a*", "é*", "[^a]*", "(a|€)*", "a?", "b*?", ".", "(é|è)+", "[^ ]", "a*b*", "(€)?(é)?", "$",
    ];
    let skips: Vec<Vec<&str>> =
        vec![vec![], vec!["\\s*"], vec![" ", "b*"], vec!["(è|b)?"], vec!["\\s+", "a*?", "$"]];
    let texts = strs(&['a', 'b', 'é', 'è', '€', ' '], ctx.pick(4, 5));
    let go = |ctx: &mut Ctx, d: Defs, texts: &[String]| {
        if !d.distinct() {
            return;
        }
        if !ctx.mine() {
            ctx.skip_case();
            return;
        }
        ctx.case(
            || d.show(),
            |st| {
                st.add("lexicons", 1);
                let an = d.real(END);
                let rf = d.model();
                for t in texts {
                    lossless(&d, &an, &rf, t, st)?;
                }
                st.sample(|| {
                    let t = &texts[texts.len() - 5];
                    format!("{}: {} texts, e.g. {t:?}: {:?}", d.show(), texts.len(), rf.run(t).pieces)
                });
                Ok(())
            },
        );
    };
    for lk in 0..=2 {
        for l in combos(lits.len(), lk) {
            let l: Vec<&str> = l.iter().map(|i| lits[*i]).collect();
            for rk in 0..=2 {
                for r in combos(regs.len(), rk) {
                    let r: Vec<&str> = r.iter().map(|i| regs[*i]).collect();
                    for s in &skips {
                        go(ctx, Defs::new(&l, &r, s), &texts);
                    }
                }
            }
        }
    }
    // every character of some sizes, in every surrounding, and long runs of unexpected or skipped text
    let mut odd: Vec<String> = vec![];
    for c in ['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{feff}', '\u{2028}', '\u{301}', '\r', '\u{a0}'] {
        for a in ["", "a", "é", " ", "b b"] {
            for b in ["", "a", "€ a", " ", "\n"] {
                odd.push(format!("{a}{c}{b}"));
                odd.push(format!("{a}{c}{c}{b}"));
            }
        }
    }
    for n in [1usize, 10, 1000, 1023, 1024, 1025].iter().chain(crate::spaces::SIZES) {
        for x in ["?", "é", " ", "a", "b", "a ", "? ", "€?", "\n", "\u{10ffff}"] {
            odd.push(x.repeat(*n));
            odd.push(format!("a{}a", x.repeat(*n)));
            odd.push(format!(" ?{}b é", x.repeat(*n)));
        }
    }
    for (l, r, s) in [
        (vec!["a"], vec![], vec![]),
        (vec!["a"], vec!["b*", "é+"], vec![" *"]),
        (vec!["é"], vec!["a*"], vec!["( |€)*"]),
        (vec![], vec!["[a-b]*"], vec!["\\n?", "\\r"]),
        (vec![], vec![], vec![]),
        (vec![], vec![], vec![" "]),
    ] {
        go(ctx, Defs::new(&l, &r, &s), &odd);
    }
}

/// no hang, no panic, nothing lost, nothing invented (from what the stream says alone)
fn lossless(
    d: &Defs,
    an: &LexicalAnalyzer<G>,
    rf: &LexRef,
    text: &str,
    st: &mut Stats,
) -> CheckResult {
    let got = match no_panic(|| all(an, text, "t")) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) => return Err(viol(e, d, text)),
        Err(e) => return Err(viol(format!("panic: {e}"), d, text)),
    };
    st.add("traces_validated_against_impl", 1);
    st.add("transitions", got.len() as u64 - 1);
    st.add("states", got.len() as u64);
    let chars: Vec<(usize, char)> = text.char_indices().collect();
    let cs: Vec<char> = chars.iter().map(|x| x.1).collect();
    let mut starts = vec![0];
    for (i, c) in text.char_indices() {
        if c == '\n' {
            starts.push(i + 1);
        }
    }
    let idx = |byte: usize| -> Option<usize> {
        if byte == text.len() {
            Some(cs.len())
        } else {
            chars.iter().position(|x| x.0 == byte)
        }
    };
    let n = got.len() - 1;
    let mut pos = 0; // in bytes
    for (i, o) in got.iter().enumerate() {
        let start = match starts.get(o.line.wrapping_sub(1)) {
            Some(s) => s + o.offset - 1,
            None => return Err(viol(format!("no such line: {o:?}"), d, text)),
        };
        if i == n {
            if o.what != OWhat::Tok(END) || !o.text.is_empty() || start != text.len() {
                return Err(viol(format!("ends with {o:?}"), d, text));
            }
        } else if o.text.is_empty()
            || o.what == OWhat::Tok(END)
            || o.what == OWhat::Advanced
            || !text.get(start..).unwrap_or("").starts_with(&o.text)
        {
            return Err(viol(format!("bad element {i}: {o:?}"), d, text));
        }
        let (Some(a), Some(b)) = (idx(pos), idx(start)) else {
            return Err(viol(format!("element {i} not at a character: {o:?}"), d, text));
        };
        if b < a {
            return Err(viol(format!("element {i} overlaps its predecessor: {o:?}"), d, text));
        }
        if !rf.skippable(&cs, a, b) {
            return Err(viol(
                format!("text {:?} before element {i} was lost", &text[pos..start]),
                d,
                text,
            ));
        }
        pos = start + o.text.len();
    }
    Ok(())
}

pub fn c03(ctx: &mut Ctx) {
    let texts = strs(&['a', 'b', ' ', '\n', '\r', 'é', '\t'], ctx.pick(6, 7));
    let labels = ["", "label", "with blank", "tab\tbed", "é", "\"q\"", "a:b"];
    let lex: Vec<Defs> = vec![
        Defs::new(&["a", "é"], &["(b(\\s*b)*)"], &["\\s+"]),
        Defs::new(&["a\nb"], &["[^a]+"], &["\\n", "\\r"]),
        Defs::new(&["a"], &["b[^a]*a", "b[^a]*a?"], &["[ \\n]"]),
        Defs::new(&["ab"], &[], &["é", "\\s"]),
        Defs::new(&[], &["[ab]", "[^b]"], &[]),
        Defs::new(&["\r\n", "\n"], &["a(.|\\n)*?a"], &["\\t+", "b(\\r|\\n)+"]),
    ];
    for (i, d) in lex.iter().enumerate() {
        for chunk in texts.chunks(1000) {
            lexicon_case(ctx, d.clone(), chunk, "text");
        }
        for l in labels {
            lexicon_case(ctx, d.clone(), &texts[..ctx.pick(400, 3000)], l);
        }
        // many lines
        for n in [10usize, 300, 70_000] {
            if n == 70_000 && !ctx.thorough() && i > 1 {
                continue;
            }
            let mut t = vec![];
            for unit in ["a\n", "a\r\n", "\n", "\r\n", "b\n \n", "é\n"] {
                t.push(format!("{}a b", unit.repeat(n)));
            }
            t.push(format!("{}a\r\nb\nb", " ".repeat(n)));
            if n < 70_000 {
                for m in crate::spaces::SIZES.iter().chain(&[511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097]) {
                    for unit in ["a", "\n", "a\n", " ", "é", "b \n", "\r\n", "\t", "\r"] {
                        if n == 10 {
                            t.push(format!("{}a b\n ab", unit.repeat(*m)));
                        } else if m < &300 {
                            t.push(format!("{0}a{0}b\n ab", unit.repeat(*m)));
                        }
                    }
                }
            }
            if n < 70_000 {
                lexicon_case(ctx, d.clone(), &t, "text");
            } else {
                lexicon_case(ctx, d.clone(), &t[..1], "text");
            }
        }
    }
}

/// reference for streams with injection
#[derive(Clone)]
struct Model<'a> {
    stack: Vec<(&'a RefText, &'a str, usize)>,
    front: Obs,
}

impl<'a> Model<'a> {
    fn new(r: &'a RefText, label: &'a str) -> Model<'a> {
        let mut m = Model {
            stack: vec![],
            front: end_of(r, label),
        };
        m.inject(r, label);
        m
    }
    fn inject(&mut self, r: &'a RefText, label: &'a str) {
        if !r.pieces.is_empty() {
            self.stack.push((r, label, 0));
            self.front = expect_of(&r.pieces[0], label);
        }
    }
    fn advance(&mut self) {
        match self.stack.pop() {
            None => {
                self.front.what = OWhat::Advanced;
                self.front.text = String::new();
            }
            Some((r, l, i)) => {
                if i + 1 < r.pieces.len() {
                    self.stack.push((r, l, i + 1));
                    self.front = expect_of(&r.pieces[i + 1], l);
                } else if let Some((r, l, i)) = self.stack.last() {
                    self.front = expect_of(&r.pieces[*i], l);
                } else {
                    self.front = end_of(r, l);
                }
            }
        }
    }
}

const TEXTS: [&str; 7] = ["", " \n", "a", "a\n b ", "?", "bb ?a", "\na"];

fn c04_defs() -> Defs {
    Defs::new(&["a"], &["b+", "b[b]*c"], &["\\s"])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Advance,
    FrontAdvance,
    AdvanceFront,
    Inject(usize),
}

fn apply<'a>(
    s: &mut TokenStream<G>,
    m: &mut Model<'a>,
    op: Op,
    texts: &'a [RefText],
    labels: &'a [String],
) -> Result<(), String> {
    match op {
        Op::Advance => {
            s.advance();
            m.advance();
        }
        Op::FrontAdvance => {
            let g = observe(s.front_advance());
            if g != m.front {
                return Err(format!("front_advance gives {g:?} instead of {:?}", m.front));
            }
            m.advance();
        }
        Op::AdvanceFront => {
            let g = observe(s.advance_front());
            m.advance();
            if g != m.front {
                return Err(format!("advance_front gives {g:?} instead of {:?}", m.front));
            }
        }
        Op::Inject(i) => {
            s.inject(TEXTS[i], &labels[i]);
            m.inject(&texts[i], &labels[i]);
        }
    }
    look(s, m)
}

fn look(s: &TokenStream<G>, m: &Model) -> Result<(), String> {
    for _ in 0..2 {
        let g = observe(s.front());
        if g != m.front {
            return Err(format!("front is {g:?} instead of {:?}", m.front));
        }
        if s.is_empty() != m.stack.is_empty() {
            return Err(format!("is_empty says {}", s.is_empty()));
        }
    }
    Ok(())
}

pub fn c04(ctx: &mut Ctx) {
    let d = c04_defs();
    let rf = d.model();
    let refs: Vec<RefText> = TEXTS.iter().map(|t| rf.run(t)).collect();
    let labels: Vec<String> = (0..TEXTS.len()).map(|i| format!("inj{i}")).collect();
    let start = "start".to_string();
    let mut ops = vec![Op::Advance, Op::FrontAdvance, Op::AdvanceFront];
    ops.extend((0..TEXTS.len()).map(Op::Inject));
    let depth = ctx.pick(6, 7);
    // one case per start text and first two operations
    for t0 in 0..TEXTS.len() {
        for a in 0..ops.len() {
            for b in 0..ops.len() {
                ctx.case(
                    || format!("{:?} then {:?} {:?} ...", TEXTS[t0], ops[a], ops[b]),
                    |st| {
                        let an = d.real(END);
                        // all continuations of exactly depth operations (checking after each)
                        let mut seq = vec![0usize; depth - 2];
                        let mut seen = std::collections::BTreeSet::new();
                        loop {
                            let mut s = an.token_stream(TEXTS[t0], &start);
                            let mut m = Model::new(&refs[t0], &start);
                            let mut r = look(&s, &m);
                            let mut hist = vec![];
                            for op in [a, b].iter().chain(seq.iter()) {
                                if r.is_err() {
                                    break;
                                }
                                hist.push(ops[*op]);
                                r = apply(&mut s, &mut m, ops[*op], &refs, &labels);
                                st.add("transitions", 1);
                            }
                            if let Err(e) = r {
                                return Err(Violation::new(
                                    format!("stream of {:?} after {hist:?}: {e}", TEXTS[t0]),
                                    format!("texts {TEXTS:?}\n{}", d.show()),
                                    format!("{:?} {hist:?}", TEXTS[t0]),
                                ));
                            }
                            seen.insert((
                                m.stack.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>(),
                                m.front.shown_loc.clone(),
                                m.front.what == OWhat::Advanced,
                            ));
                            st.add("traces_validated_against_impl", 1);
                            let mut i = seq.len();
                            loop {
                                if i == 0 {
                                    break;
                                }
                                i -= 1;
                                seq[i] += 1;
                                if seq[i] < ops.len() {
                                    i = usize::MAX;
                                    break;
                                }
                                seq[i] = 0;
                            }
                            if i != usize::MAX {
                                break;
                            }
                        }
                        st.add("states", seen.len() as u64);
                        st.sample(|| {
                            format!(
                                "stream of {:?}: {:?} {:?} and all {} continuations of length {}",
                                TEXTS[t0],
                                ops[a],
                                ops[b],
                                ops.len().pow(depth as u32 - 2),
                                depth - 2
                            )
                        });
                        Ok(())
                    },
                );
            }
        }
    }
    // deep nesting
    for n in [10usize, 100, ctx.pick(2000, 20000)] {
        for t in 2..TEXTS.len() {
            ctx.case(
                || format!("{n} nested injections of {:?}", TEXTS[t]),
                |st| {
                    let an = d.real(END);
                    let mut s = an.token_stream("a b", &start);
                    let r0 = rf.run("a b");
                    let mut m = Model::new(&r0, &start);
                    let e = |e: String| {
                        Violation::new(format!("{n} nested injections: {e}"), "", format!("nested {n} {t}"))
                    };
                    for i in 0..n {
                        let x = if i % 3 == 2 { 3 } else { t };
                        apply(&mut s, &mut m, Op::Inject(x), &refs, &labels).map_err(e)?;
                        if i % 5 == 0 {
                            apply(&mut s, &mut m, Op::Advance, &refs, &labels).map_err(e)?;
                        }
                    }
                    for _ in 0..4 * n + 5 {
                        apply(&mut s, &mut m, Op::FrontAdvance, &refs, &labels).map_err(e)?;
                        st.add("transitions", 1);
                    }
                    st.add("traces_validated_against_impl", 1);
                    Ok(())
                },
            );
        }
    }
}

pub fn c05(ctx: &mut Ctx) {
    let lp = ["", "a", "b", "(b)"];
    let rp = ["", "a", "(", "(b)", "[b"];
    let sp = ["", "a", "(", " ", "(b)"];
    let tags = [1u16, 2, 3];
    let ends: &[u16] = if ctx.thorough() { &[0, 1, 2, 3, 4] } else { &[2, 0] };
    let ldefs: Vec<(u16, &str)> = tags.iter().flat_map(|t| lp.iter().map(|p| (*t, *p))).collect();
    let rdefs: Vec<(u16, &str)> = tags.iter().flat_map(|t| rp.iter().map(|p| (*t, *p))).collect();
    let small = strs(&['a', 'b', ' '], 2);
    let rmax = ctx.pick(2, 2);
    for ls in strings(&ldefs, 2) {
        for rs in strings(&rdefs, rmax) {
            if !ctx.thorough() && ls.len() == 2 && rs.len() == 2 && ls[0].0 > 2 {
                continue;
            }
            let (ls, rs) = (&ls, &rs);
            ctx.case(
                || format!("literals {ls:?} regexes {rs:?} with all skips and end markers"),
                |st| {
                    for ss in strings(&sp, if ls.len() + rs.len() > 2 { 1 } else { 2 }) {
                        for end in ends {
                            one_defs(ls, rs, &ss, *end, &small, st)?;
                        }
                    }
                    st.sample(|| format!("literals {ls:?} regexes {rs:?} with all skips and end markers {ends:?}"));
                    Ok(())
                },
            );
        }
    }
    c05_sizes(ctx);
    c05_long(ctx);
    // longer lists: all positions of one defect
    let n = ctx.pick(8usize, 16);
    for defect in 0..7 {
        for i in 0..n {
            for j in 0..n {
                ctx.case(
                    || format!("defect {defect} at {i} {j} of {n}"),
                    |st| {
                        let lw: Vec<String> = (0..n).map(|k| format!("l{k}")).collect();
                        let rw: Vec<String> = (0..n).map(|k| format!("r{k}")).collect();
                        let sw: Vec<String> = (0..n).map(|k| format!("s{k}")).collect();
                        let perm = |k: usize| ((k * 7 + 3) % n) as u16;
                        let mut ls: Vec<(u16, &str)> = (0..n).map(|k| (perm(k), lw[k].as_str())).collect();
                        let mut rs: Vec<(u16, &str)> =
                            (0..n).map(|k| (40 + perm(k), rw[k].as_str())).collect();
                        let mut ss: Vec<&str> = sw.iter().map(|x| x.as_str()).collect();
                        let mut end = 30;
                        match defect {
                            0 => ls[i].0 = rs[j].0,
                            1 => ls[i].1 = rs[j].1,
                            2 => rs[i].1 = ss[j],
                            3 => ss[i] = ls[j].1,
                            4 => end = if i % 2 == 0 { ls[j].0 } else { rs[j].0 },
                            5 => {
                                rs[i].1 = "x(";
                                ls[j].1 = "other"
                            }
                            _ => (),
                        }
                        one_defs(&ls, &rs, &ss, end, &[], st)
                    },
                );
            }
        }
    }
}

/// literals of any length
fn c05_long(ctx: &mut Ctx) {
    let mut lens: Vec<usize> = vec![1000, 4097, 40_000, 65_535, 65_536, 65_537, 200_000];
    if ctx.thorough() {
        lens.extend([131_072, 500_000, 1 << 20]);
    }
    for n in lens {
        let x = "x".repeat(n);
        let (y, e) = (format!("{x}y"), format!("{}é", &x[1..]));
        let lists: Vec<(Vec<&str>, Vec<&str>, bool)> = vec![
            (vec![&x], vec![], true),
            (vec![&x, &x[..n - 1]], vec![], true),
            (vec![&x[..n - 1], &x, &y], vec![], true),
            (vec![&y, &x, &e], vec!["z"], true),
            (vec![&x[1..], &e, "x"], vec!["[x]"], true),
            (vec![&y, &x, &y], vec![], false),
            (vec![&x, &x], vec![], false),
            (vec![&x], vec![&x], false),
        ];
        for (k, (l, r, good)) in lists.iter().enumerate() {
            ctx.case(
                || format!("literals of {n} bytes, list {k}"),
                |st| {
                    let bad = |e: String| {
                        Err(Violation::new(format!("literals of {n} bytes, list {k}: {e}"), "", format!("long {n} {k}")))
                    };
                    let ld: Vec<(G, &str)> = l.iter().enumerate().map(|(i, x)| (G(i as u16 + 1), *x)).collect();
                    let rd: Vec<(G, &str)> = r.iter().enumerate().map(|(i, x)| (G(i as u16 + 50), *x)).collect();
                    let a = no_panic(|| lexan::LexicalAnalyzer::new(&ld, &rd, &["( )"], G(0)));
                    st.add("states", 1);
                    st.add("traces_validated_against_impl", 1);
                    let a = match a {
                        Ok(a) if *good => a,
                        Ok(_) => return bad("accepted".into()),
                        Err(m) if *good => return bad(format!("refused: {}", clip(&m))),
                        Err(_) => return Ok(()),
                    };
                    // every literal is found, alone and followed by something else
                    for (t, x) in &ld {
                        for tail in ["", " x", "?"] {
                            let text = format!("{x}{tail}");
                            let s = a.token_stream(&text, "t");
                            match s.front() {
                                Ok(f) if f.tag() == t && f.lexeme() == x => (),
                                Ok(f) => return bad(format!("literal {} of {} bytes gives a token of {} bytes", t.0, x.len(), f.lexeme().len())),
                                Err(e) => return bad(format!("literal {}: {}", t.0, clip(&e.to_string()))),
                            }
                            st.add("transitions", 1);
                        }
                    }
                    Ok(())
                },
            );
        }
    }
}

fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

/// long lists of definitions, with a defect near every place at which a width changes
fn c05_sizes(ctx: &mut Ctx) {
    let sizes: &[usize] = if ctx.thorough() { crate::spaces::SIZES } else { crate::spaces::FEW_SIZES };
    for n in sizes {
        let n = *n;
        let near: Vec<usize> = (0..n).filter(|i| crate::spaces::near(*i, n)).collect();
        for defect in 0..9 {
            ctx.case(
                || format!("defect {defect} in {n} definitions of each kind"),
                |st| {
                    let lw: Vec<String> = (0..n).map(|k| format!("l{k}")).collect();
                    let rw: Vec<String> = (0..n).map(|k| format!("r{k}")).collect();
                    let sw: Vec<String> = (0..n).map(|k| format!("s{k}")).collect();
                    // (a permutation: n is coprime to one of these)
                    let m = [7, 11, 13, 17].into_iter().find(|m| n % m != 0).unwrap();
                    let perm = |k: usize| ((k * m + 3) % n) as u16;
                    let mut k = 0;
                    for &i in &near {
                        for &j in &near {
                            k += 1;
                            if k % 7 != 0 && n > 40 && i != j && defect < 8 {
                                continue;
                            }
                            let mut ls: Vec<(u16, &str)> = (0..n).map(|k| (perm(k), lw[k].as_str())).collect();
                            let mut rs: Vec<(u16, &str)> = (0..n).map(|k| (1000 + perm(k), rw[k].as_str())).collect();
                            let mut ss: Vec<&str> = sw.iter().map(|x| x.as_str()).collect();
                            let mut end = 5000;
                            match defect {
                                0 => ls[i].0 = rs[j].0,
                                1 => ls[i].1 = rs[j].1,
                                2 => rs[i].1 = ss[j],
                                3 => ss[i] = ls[j].1,
                                4 => end = if k % 2 == 0 { ls[j].0 } else { rs[i].0 },
                                5 if i != j => ls[i].0 = ls[j].0,
                                6 if i != j => rs[i].1 = rs[j].1,
                                7 if i != j => ss[i] = ss[j],
                                8 if i == j => match k % 4 {
                                    0 => ls[i].1 = "",
                                    1 => rs[i].1 = "",
                                    2 => rs[i].1 = "x(",
                                    _ => ss[i] = "",
                                },
                                _ => continue,
                            }
                            // regular expressions take their time
                            let (a, b) = if defect == 8 { (3, 3) } else { (n, n) };
                            let keep = |x: usize| x < a || x + 3 > n || x == i || x == j;
                            let rs: Vec<(u16, &str)> = (0..n).filter(|x| keep(*x)).map(|x| rs[x]).collect();
                            let ss: Vec<&str> = (0..n).filter(|x| *x < b || keep(*x)).map(|x| ss[x]).collect();
                            one_defs(&ls, &rs, &ss, end, &[], st)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        ctx.case(
            || format!("{n} definitions of each kind"),
            |st| {
                let lw: Vec<String> = (0..n).map(|k| format!("l{k}")).collect();
                let rw: Vec<String> = (0..n).map(|k| format!("r{k}")).collect();
                let sw: Vec<String> = (0..n).map(|k| format!("s{k}")).collect();
                let ls: Vec<(u16, &str)> = (0..n).map(|k| (k as u16, lw[k].as_str())).collect();
                let rs: Vec<(u16, &str)> = (0..n).map(|k| (5000 - k as u16, rw[k].as_str())).collect();
                let ss: Vec<&str> = sw.iter().map(|x| x.as_str()).collect();
                let texts: Vec<String> = near.iter().map(|i| format!("l{i}r{i}s{i}")).collect();
                one_defs(&ls, &rs, &ss, 1000, &texts, st)?;
                one_defs(&ls, &[], &[], n as u16, &texts, st)?;
                one_defs(&[], &rs, &[], 0, &texts, st)?;
                one_defs(&[], &[], &ss, 0, &texts, st)
            },
        );
    }
}

fn one_defs(
    ls: &[(u16, &str)],
    rs: &[(u16, &str)],
    ss: &[&str],
    end: u16,
    texts: &[String],
    st: &mut Stats,
) -> CheckResult {
    let mut tags: Vec<u16> = vec![end];
    let mut dup_tags = vec![];
    let mut pats: Vec<&str> = vec![];
    let mut dup_pats = vec![];
    for (t, _) in ls.iter().chain(rs) {
        if tags.contains(t) {
            dup_tags.push(*t);
        }
        tags.push(*t);
    }
    for p in ls.iter().map(|x| &x.1).chain(rs.iter().map(|x| &x.1)).chain(ss) {
        if pats.contains(p) {
            dup_pats.push(*p);
        }
        pats.push(p);
    }
    let empty = pats.contains(&"");
    let bad: Vec<&str> = rs
        .iter()
        .map(|x| x.1)
        .chain(ss.iter().copied())
        .filter(|p| !p.is_empty() && Regex::new(p).is_none())
        .collect();
    let ok = dup_tags.is_empty() && dup_pats.is_empty() && !empty && bad.is_empty();
    let show = format!("literals {ls:?} regexes {rs:?} skips {ss:?} end marker {end}");
    let l: Vec<(G, &str)> = ls.iter().map(|(a, b)| (G(*a), *b)).collect();
    let r: Vec<(G, &str)> = rs.iter().map(|(a, b)| (G(*a), *b)).collect();
    let res = no_panic(|| LexicalAnalyzer::new(&l, &r, ss, G(end)));
    st.add("states", 1);
    st.add("transitions", (ls.len() + rs.len() + ss.len()) as u64);
    st.add("traces_validated_against_impl", 1);
    match res {
        Ok(an) => {
            if !ok {
                return Err(Violation::new(format!("{show}: accepted"), "", show));
            }
            st.add("accepted_definition_lists", 1);
            let rf = LexRef::new(ls, rs, ss);
            for t in texts {
                let rr = rf.run(t);
                let want: Vec<Obs> = rr.pieces.iter().map(|p| expect_of(p, "t")).collect();
                let got = all(&an, t, "t").map_err(|e| Violation::new(format!("{show}: {e}"), "", &show))?;
                let e = got.last().unwrap();
                if got[..got.len() - 1] != want[..] || e.what != OWhat::Tok(end) {
                    return Err(Violation::new(
                        format!("{show}: text {t:?} gives {got:?} instead of {want:?}"),
                        "",
                        show,
                    ));
                }
            }
        }
        Err(m) => {
            if ok {
                return Err(Violation::new(format!("{show}: refused: {m}"), "", show));
            }
            // the defect named must be there
            let lower = m.to_lowercase();
            let named = if lower.contains("duplicatehandle") || lower.contains("duplicate handle") {
                dup_tags.iter().any(|t| m.contains(&format!("G({t})")) || m.contains(&format!("G{t}")))
            } else if lower.contains("duplicatepattern") || lower.contains("duplicate regex pattern")
            {
                dup_pats.iter().any(|p| m.contains(p))
            } else if lower.contains("empty") {
                empty
            } else {
                bad.iter().any(|p| m.contains(p))
            };
            if !named {
                return Err(Violation::new(
                    format!("{show}: the defect reported is not there: {m}"),
                    "",
                    show,
                ));
            }
        }
    }
    Ok(())
}
