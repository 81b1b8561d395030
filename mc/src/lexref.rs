//! Reference lexical analysis: a backtracking matcher for the regular expressions used by the checks
//! and tokenisation by definition.

#[derive(Clone, Debug)]
enum Re {
    Char(char),
    Any,
    Set(bool, Vec<(char, char)>),
    End,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    /// min, max (0: none), greedy
    Rep(Box<Re>, usize, usize, bool),
}

struct P {
    s: Vec<char>,
    i: usize,
}

impl P {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn alt(&mut self) -> Option<Re> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some('|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { Re::Alt(v) })
    }
    fn cat(&mut self) -> Option<Re> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let a = self.atom()?;
            let (lo, hi) = match self.peek() {
                Some('*') => (0, 0),
                Some('+') => (1, 0),
                Some('?') => (0, 1),
                _ => {
                    v.push(a);
                    continue;
                }
            };
            self.i += 1;
            let greedy = if self.peek() == Some('?') {
                self.i += 1;
                false
            } else {
                true
            };
            v.push(Re::Rep(Box::new(a), lo, hi, greedy));
        }
        Some(Re::Cat(v))
    }
    fn class(c: char) -> Option<(bool, Vec<(char, char)>)> {
        Some(match c {
            's' => (false, vec![(' ', ' '), ('\t', '\r'), ('\u{85}', '\u{85}'), ('\u{a0}', '\u{a0}')]),
            'S' => (true, Self::class('s')?.1),
            'd' => (false, vec![('0', '9')]),
            'w' => (false, vec![('0', '9'), ('a', 'z'), ('A', 'Z'), ('_', '_'), ('\u{c0}', '\u{d6}'), ('\u{d8}', '\u{f6}'), ('\u{f8}', '\u{ff}')]),
            'n' => (false, vec![('\n', '\n')]),
            'r' => (false, vec![('\r', '\r')]),
            't' => (false, vec![('\t', '\t')]),
            c if !c.is_alphanumeric() => (false, vec![(c, c)]),
            _ => return None,
        })
    }
    fn atom(&mut self) -> Option<Re> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            '(' => {
                let r = self.alt()?;
                if self.peek() != Some(')') {
                    return None;
                }
                self.i += 1;
                r
            }
            '.' => Re::Any,
            '$' => Re::End,
            '[' => {
                let mut neg = false;
                if self.peek() == Some('^') {
                    neg = true;
                    self.i += 1;
                }
                let mut v = vec![];
                loop {
                    let c = self.peek()?;
                    self.i += 1;
                    match c {
                        ']' if !v.is_empty() => break,
                        '\\' => {
                            let (n, s) = Self::class(self.peek()?)?;
                            if n {
                                return None;
                            }
                            self.i += 1;
                            v.extend(s);
                        }
                        c => {
                            if self.peek() == Some('-') && self.s.get(self.i + 1) != Some(&']') {
                                let e = *self.s.get(self.i + 1)?;
                                self.i += 2;
                                v.push((c, e));
                            } else {
                                v.push((c, c));
                            }
                        }
                    }
                }
                Re::Set(neg, v)
            }
            '\\' => {
                let (n, s) = Self::class(self.peek()?)?;
                self.i += 1;
                Re::Set(n, s)
            }
            '*' | '+' | '?' => return None,
            c => Re::Char(c),
        })
    }
}

fn m(r: &Re, t: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match r {
        Re::Char(c) => t.get(i) == Some(c) && k(i + 1),
        Re::Any => matches!(t.get(i), Some(c) if *c != '\n') && k(i + 1),
        Re::End => i == t.len() && k(i),
        Re::Set(neg, v) => match t.get(i) {
            Some(c) => (v.iter().any(|(a, b)| a <= c && c <= b) != *neg) && k(i + 1),
            None => false,
        },
        Re::Cat(v) => cat(v, t, i, k),
        Re::Alt(v) => v.iter().any(|x| m(x, t, i, k)),
        Re::Rep(x, lo, hi, greedy) => rep(x, *lo, *hi, *greedy, 0, t, i, k),
    }
}

fn cat(v: &[Re], t: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match v.split_first() {
        None => k(i),
        Some((f, r)) => m(f, t, i, &mut |j| cat(r, t, j, k)),
    }
}

#[allow(clippy::too_many_arguments)]
fn rep(
    x: &Re,
    lo: usize,
    hi: usize,
    greedy: bool,
    n: usize,
    t: &[char],
    i: usize,
    k: &mut dyn FnMut(usize) -> bool,
) -> bool {
    let more = hi == 0 || n < hi;
    if greedy {
        (more && m(x, t, i, &mut |j| j > i && rep(x, lo, hi, greedy, n + 1, t, j, k)))
            || (n >= lo && k(i))
    } else {
        (n >= lo && k(i))
            || (more && m(x, t, i, &mut |j| j > i && rep(x, lo, hi, greedy, n + 1, t, j, k)))
    }
}

#[derive(Clone, Debug)]
pub struct Regex(Re);

impl Regex {
    /// None: not a valid regular expression (of the kinds known here)
    pub fn new(s: &str) -> Option<Regex> {
        let mut p = P {
            s: s.chars().collect(),
            i: 0,
        };
        let r = p.alt()?;
        if p.i < p.s.len() {
            return None;
        }
        Some(Regex(r))
    }
    /// the leftmost-first match starting at t[i]: its end
    pub fn at(&self, t: &[char], i: usize) -> Option<usize> {
        let mut e = None;
        m(&self.0, t, i, &mut |j| {
            e = Some(j);
            true
        });
        e
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum What {
    Tok(u16),
    Unexpected,
    Ambiguous(Vec<u16>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RefPiece {
    pub what: What,
    pub text: String,
    pub line: usize,
    pub offset: usize,
    /// byte position
    pub start: usize,
}

#[derive(Clone, Debug)]
pub struct LexRef {
    lits: Vec<(u16, Vec<char>)>,
    regs: Vec<(u16, Regex)>,
    skips: Vec<Regex>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct RefText {
    pub pieces: Vec<RefPiece>,
    pub end: (usize, usize),
}

impl LexRef {
    pub fn new(l: &[(u16, &str)], r: &[(u16, &str)], s: &[&str]) -> LexRef {
        LexRef {
            lits: l.iter().map(|(a, b)| (*a, b.chars().collect())).collect(),
            regs: r.iter().map(|(a, b)| (*a, Regex::new(b).expect("known regex"))).collect(),
            skips: s.iter().map(|b| Regex::new(b).expect("known regex")).collect(),
        }
    }

    fn skip_at(&self, t: &[char], i: usize) -> Option<usize> {
        self.skips.iter().find_map(|r| r.at(t, i).filter(|e| *e > i))
    }
    fn lit_at(&self, t: &[char], i: usize) -> Option<(u16, usize)> {
        self.lits
            .iter()
            .filter(|(_, l)| t[i..].starts_with(l))
            .max_by_key(|(_, l)| l.len())
            .map(|(t, l)| (*t, i + l.len()))
    }
    fn regs_at(&self, t: &[char], i: usize) -> (Vec<u16>, usize) {
        let v: Vec<(u16, usize)> = self
            .regs
            .iter()
            .filter_map(|(g, r)| r.at(t, i).filter(|e| *e > i).map(|e| (*g, e)))
            .collect();
        let e = v.iter().map(|x| x.1).max().unwrap_or(i);
        (v.into_iter().filter(|x| x.1 == e).map(|x| x.0).collect(), e)
    }
    /// can all of t[i..j] be skipped?
    pub fn skippable(&self, t: &[char], i: usize, j: usize) -> bool {
        let mut i = i;
        while i < j {
            match self.skip_at(t, i) {
                Some(e) if e <= j => i = e,
                _ => return false,
            }
        }
        true
    }

    pub fn run(&self, text: &str) -> RefText {
        let t: Vec<char> = text.chars().collect();
        let mut bytes = vec![0];
        for c in &t {
            bytes.push(bytes.last().unwrap() + c.len_utf8());
        }
        let loc = |i: usize| {
            let line = 1 + t[..i].iter().filter(|c| **c == '\n').count();
            let start = t[..i].iter().rposition(|c| *c == '\n').map(|p| p + 1).unwrap_or(0);
            (line, 1 + bytes[i] - bytes[start])
        };
        let mut out = RefText::default();
        let mut i = 0;
        loop {
            while i < t.len() {
                match self.skip_at(&t, i) {
                    Some(e) => i = e,
                    None => break,
                }
            }
            if i >= t.len() {
                break;
            }
            let (what, e) = match (self.lit_at(&t, i), self.regs_at(&t, i)) {
                (Some((g, e)), (_, re)) if e >= re => (What::Tok(g), e),
                (_, (v, e)) if v.len() == 1 => (What::Tok(v[0]), e),
                (_, (v, e)) if v.len() > 1 => (What::Ambiguous(v), e),
                _ => {
                    let e = (i + 1..t.len())
                        .find(|j| {
                            self.lit_at(&t, *j).is_some()
                                || !self.regs_at(&t, *j).0.is_empty()
                                || self.skip_at(&t, *j).is_some()
                        })
                        .unwrap_or(t.len());
                    (What::Unexpected, e)
                }
            };
            let (line, offset) = loc(i);
            out.pieces.push(RefPiece {
                what,
                text: t[i..e].iter().collect(),
                line,
                offset,
                start: bytes[i],
            });
            i = e;
        }
        out.end = loc(t.len());
        out
    }
}
