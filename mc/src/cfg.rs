//! Grammars as the harness sees them, and their rendering as specification text.
use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Sym {
    T(u16),
    N(u16),
    Err,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash, Default)]
pub enum Assoc {
    #[default]
    Non,
    Left,
    Right,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Prod {
    pub lhs: u16,
    pub rhs: Vec<Sym>,
    /// %prec: a token index or a tag index
    pub prec: Option<PrecRef>,
    /// predicate code (augmented grammars)
    pub pred: Option<String>,
    /// None: default marking action; Some(None): no action; Some(Some(code)): this code
    pub action: Option<Option<String>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum PrecRef {
    Tok(u16),
    Tag(u16),
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Tok {
    pub name: String,
    /// definition as written in the specification: `"a"` or `(a)`
    pub def: String,
    /// a text that is this token
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    /// tokens; index 0 here is token id 1 (id 0 is the end marker)
    pub toks: Vec<Tok>,
    pub nts: Vec<String>,
    /// in declaration order; productions of a group are consecutive
    pub prods: Vec<Prod>,
    pub skips: Vec<String>,
    /// precedence levels in declaration order
    pub levels: Vec<(Assoc, Vec<PrecRef>)>,
    pub tags: Vec<String>,
    pub expect_sr: Option<u32>,
    pub expect_rr: Option<u32>,
    pub preamble: Option<String>,
    pub attr: Option<String>,
    pub target: Option<String>,
    pub target_first: bool,
    /// in rules, refer to literal tokens by name instead of by text
    pub by_name: bool,
}

impl Cfg {
    pub fn simple(nt: usize, nts: usize) -> Cfg {
        let names = ["TA", "TB", "TC", "TD", "TE", "TF", "TG", "TH"];
        let nn = ["S", "A", "B", "C", "D", "E"];
        Cfg {
            toks: (0..nt)
                .map(|i| {
                    let c = (b'a' + i as u8) as char;
                    Tok {
                        name: names[i].into(),
                        def: format!("\"{c}\""),
                        text: c.to_string(),
                    }
                })
                .collect(),
            nts: (0..nts).map(|i| nn[i].to_string()).collect(),
            ..Cfg::default()
        }
    }

    pub fn add(&mut self, lhs: u16, rhs: Vec<Sym>) {
        self.prods.push(Prod {
            lhs,
            rhs,
            prec: None,
            pred: None,
            action: None,
        });
    }

    pub fn uses_error(&self) -> bool {
        self.prods.iter().any(|p| p.rhs.contains(&Sym::Err))
    }

    fn sym_text(&self, s: Sym) -> String {
        match s {
            Sym::T(t) => {
                let tok = &self.toks[t as usize];
                if tok.def.starts_with('"') && !self.by_name {
                    tok.def.clone()
                } else {
                    tok.name.clone()
                }
            }
            Sym::N(n) => self.nts[n as usize].clone(),
            Sym::Err => "%error".into(),
        }
    }

    fn prec_text(&self, p: PrecRef) -> String {
        match p {
            PrecRef::Tok(t) => self.sym_text(Sym::T(t)),
            PrecRef::Tag(t) => self.tags[t as usize].clone(),
        }
    }

    pub fn mark_action(i: usize, len: usize) -> String {
        let args: Vec<String> = (1..=len).map(|k| format!("${k}.clone()")).collect();
        format!(" $$ = act({i}, vec![{}]); ", args.join(", "))
    }

    pub fn prod_text(&self, i: usize) -> String {
        let p = &self.prods[i];
        let mut s = String::new();
        for x in &p.rhs {
            let _ = write!(s, "{} ", self.sym_text(*x));
        }
        if let Some(pred) = &p.pred {
            let _ = write!(s, "?({pred}?) ");
        }
        if let Some(pr) = p.prec {
            let _ = write!(s, "%prec {} ", self.prec_text(pr));
        }
        match &p.action {
            None => {
                let _ = write!(s, "!{{{}!}}", Self::mark_action(i, p.rhs.len()));
            }
            Some(None) => (),
            Some(Some(code)) => {
                let _ = write!(s, "!{{{code}!}}");
            }
        }
        s
    }

    /// the specification text
    pub fn spec(&self) -> String {
        let mut s = String::new();
        if let Some(p) = &self.preamble {
            let _ = write!(s, "%{{{p}%}}\n");
        }
        let attr = self.attr.as_deref().unwrap_or("Attr");
        let target = self.target.as_deref().unwrap_or("Prs");
        if self.target_first {
            let _ = write!(s, "%target {target}\n%attr {attr}\n");
        } else {
            let _ = write!(s, "%attr {attr}\n%target {target}\n");
        }
        if let Some(n) = self.expect_rr {
            let _ = write!(s, "%reduce_reduce {n}\n");
        }
        if let Some(n) = self.expect_sr {
            let _ = write!(s, "%shift_reduce {n}\n");
        }
        s.push_str("%%\n");
        for t in &self.toks {
            let _ = write!(s, "%token {} {}\n", t.name, t.def);
        }
        for k in &self.skips {
            let _ = write!(s, "%skip {k}\n");
        }
        for (a, l) in &self.levels {
            s.push_str(match a {
                Assoc::Left => "%left",
                Assoc::Right => "%right",
                Assoc::Non => "%nonassoc",
            });
            for x in l {
                let _ = write!(s, " {}", self.prec_text(*x));
            }
            s.push('\n');
        }
        s.push_str("%%\n");
        let mut i = 0;
        while i < self.prods.len() {
            let lhs = self.prods[i].lhs;
            let _ = write!(s, "{}:", self.nts[lhs as usize]);
            let mut first = true;
            while i < self.prods.len() && self.prods[i].lhs == lhs {
                let _ = write!(s, "{} {}", if first { "" } else { "\n  |" }, self.prod_text(i));
                first = false;
                i += 1;
            }
            s.push_str(" .\n");
        }
        s
    }

    /// symbols that derive some terminal string
    pub fn productive(&self) -> Vec<bool> {
        let mut v = vec![false; self.nts.len()];
        loop {
            let mut ch = false;
            for p in &self.prods {
                if !v[p.lhs as usize]
                    && p.rhs.iter().all(|s| match s {
                        Sym::N(n) => v[*n as usize],
                        _ => true,
                    })
                {
                    v[p.lhs as usize] = true;
                    ch = true;
                }
            }
            if !ch {
                return v;
            }
        }
    }

    pub fn reachable(&self) -> Vec<bool> {
        let mut v = vec![false; self.nts.len()];
        if self.prods.is_empty() {
            return v;
        }
        v[self.prods[0].lhs as usize] = true;
        loop {
            let mut ch = false;
            for p in &self.prods {
                if v[p.lhs as usize] {
                    for s in &p.rhs {
                        if let Sym::N(n) = s {
                            if !v[*n as usize] {
                                v[*n as usize] = true;
                                ch = true;
                            }
                        }
                    }
                }
            }
            if !ch {
                return v;
            }
        }
    }

    pub fn level_of(&self, r: PrecRef) -> (Assoc, u32) {
        for (i, (a, l)) in self.levels.iter().enumerate() {
            if l.contains(&r) {
                return (*a, i as u32 + 1);
            }
        }
        (Assoc::Non, 0)
    }

    pub fn prod_level(&self, p: &Prod) -> (Assoc, u32) {
        if let Some(r) = p.prec {
            return self.level_of(r);
        }
        for s in &p.rhs {
            if let Sym::T(t) = s {
                return self.level_of(PrecRef::Tok(*t));
            }
        }
        (Assoc::Non, 0)
    }
}

/// Strings over the tokens up to a length as bit sets over their index
pub struct Lang {
    pub words: Vec<Vec<u16>>,
    nw: usize,
    index: std::collections::HashMap<Vec<u16>, usize>,
    cat: Vec<u32>,
}

pub type Bits = Vec<u64>;

impl Lang {
    pub fn new(nt: usize, k: usize) -> Lang {
        let alpha: Vec<u16> = (0..nt as u16).collect();
        let words = crate::util::strings(&alpha, k);
        let index: std::collections::HashMap<Vec<u16>, usize> =
            words.iter().cloned().enumerate().map(|(i, w)| (w, i)).collect();
        let n = words.len();
        let mut cat = vec![u32::MAX; n * n];
        for i in 0..n {
            for j in 0..n {
                if words[i].len() + words[j].len() <= k {
                    let mut w = words[i].clone();
                    w.extend(&words[j]);
                    cat[i * n + j] = index[&w] as u32;
                }
            }
        }
        Lang {
            nw: n,
            words,
            index,
            cat,
        }
    }

    fn empty(&self) -> Bits {
        vec![0; self.nw.div_ceil(64)]
    }

    pub fn has(b: &Bits, i: usize) -> bool {
        b[i / 64] >> (i % 64) & 1 == 1
    }

    pub fn id(&self, w: &[u16]) -> usize {
        self.index[w]
    }

    fn set(b: &mut Bits, i: usize) {
        b[i / 64] |= 1 << (i % 64)
    }

    fn iter(b: &Bits) -> Vec<usize> {
        let mut v = vec![];
        for (k, w) in b.iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                v.push(k * 64 + w.trailing_zeros() as usize);
                w &= w - 1;
            }
        }
        v
    }

    fn concat(&self, a: &Bits, b: &Bits) -> Bits {
        let mut o = self.empty();
        let bs = Self::iter(b);
        for i in Self::iter(a) {
            for &j in &bs {
                let c = self.cat[i * self.nw + j];
                if c != u32::MAX {
                    Self::set(&mut o, c as usize);
                }
            }
        }
        o
    }

    /// for each non terminal the set of its words (up to the length); `err` treated as empty
    pub fn languages(&self, g: &Cfg) -> Vec<Bits> {
        let mut l: Vec<Bits> = vec![self.empty(); g.nts.len()];
        loop {
            let mut ch = false;
            for p in &g.prods {
                let mut cur = self.empty();
                Self::set(&mut cur, 0);
                for s in &p.rhs {
                    let x = match s {
                        Sym::T(t) => {
                            let mut b = self.empty();
                            if self.nw > 1 {
                                Self::set(&mut b, self.id(&[*t]));
                            }
                            b
                        }
                        Sym::N(n) => l[*n as usize].clone(),
                        Sym::Err => {
                            let mut b = self.empty();
                            Self::set(&mut b, 0);
                            b
                        }
                    };
                    cur = self.concat(&cur, &x);
                }
                let t = &mut l[p.lhs as usize];
                for (a, b) in t.iter_mut().zip(cur.iter()) {
                    if *b & !*a != 0 {
                        *a |= *b;
                        ch = true;
                    }
                }
            }
            if !ch {
                return l;
            }
        }
    }

    /// words that are prefixes of some word (of any length) of the start symbol's language;
    /// only meaningful if every non terminal is productive
    pub fn prefixes(&self, g: &Cfg, l: &[Bits]) -> Bits {
        let mut pre: Vec<Bits> = vec![self.empty(); g.nts.len()];
        loop {
            let mut ch = false;
            for p in &g.prods {
                let mut add = self.empty();
                Self::set(&mut add, 0);
                let mut cur = self.empty();
                Self::set(&mut cur, 0);
                for s in &p.rhs {
                    let (full, part) = match s {
                        Sym::T(t) => {
                            let mut b = self.empty();
                            if self.nw > 1 {
                                Self::set(&mut b, self.id(&[*t]));
                            }
                            let mut c = b.clone();
                            Self::set(&mut c, 0);
                            (b, c)
                        }
                        Sym::N(n) => (l[*n as usize].clone(), pre[*n as usize].clone()),
                        Sym::Err => {
                            let mut b = self.empty();
                            Self::set(&mut b, 0);
                            (b.clone(), b)
                        }
                    };
                    let x = self.concat(&cur, &part);
                    for (a, b) in add.iter_mut().zip(x.iter()) {
                        *a |= *b;
                    }
                    cur = self.concat(&cur, &full);
                }
                let t = &mut pre[p.lhs as usize];
                for (a, b) in t.iter_mut().zip(add.iter()) {
                    if *b & !*a != 0 {
                        *a |= *b;
                        ch = true;
                    }
                }
            }
            if !ch {
                return pre[g.prods[0].lhs as usize].clone();
            }
        }
    }
}
