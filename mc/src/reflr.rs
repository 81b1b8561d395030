//! Reference: LALR(1) automata by definition, conflict resolution by the documented policy, and a
//! reference parser with error recovery.
use crate::cfg::{Assoc, Cfg, Sym};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// token 0 is the end marker, token i+1 the grammar's token i
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct TokSet([u64; 5]);

impl TokSet {
    pub const NONE: TokSet = TokSet([0; 5]);
    pub const SIZE: usize = 320;

    pub fn bit(t: u16) -> TokSet {
        let mut v = TokSet::NONE;
        v.0[t as usize / 64] = 1 << (t % 64);
        v
    }

    pub fn has(&self, t: u16) -> bool {
        self.0[t as usize / 64] >> (t % 64) & 1 == 1
    }

    pub fn is_empty(&self) -> bool {
        self.0 == [0; 5]
    }
}

impl std::ops::BitOr for TokSet {
    type Output = TokSet;
    fn bitor(mut self, o: TokSet) -> TokSet {
        self |= o;
        self
    }
}

impl std::ops::BitOrAssign for TokSet {
    fn bitor_assign(&mut self, o: TokSet) {
        for (a, b) in self.0.iter_mut().zip(o.0) {
            *a |= b;
        }
    }
}

impl std::ops::BitAnd for TokSet {
    type Output = TokSet;
    fn bitand(mut self, o: TokSet) -> TokSet {
        self &= o;
        self
    }
}

impl std::ops::BitAndAssign for TokSet {
    fn bitand_assign(&mut self, o: TokSet) {
        for (a, b) in self.0.iter_mut().zip(o.0) {
            *a &= b;
        }
    }
}

impl std::ops::Not for TokSet {
    type Output = TokSet;
    fn not(mut self) -> TokSet {
        for a in self.0.iter_mut() {
            *a = !*a;
        }
        self
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum X {
    T(u16),
    N(u16),
}

pub type Item = (u16, u16);

#[derive(Clone, Debug)]
pub struct RProd {
    pub lhs: u16,
    pub rhs: Vec<X>,
    pub assoc: Assoc,
    pub level: u32,
    pub err_tail: bool,
    pub pred: bool,
}

#[derive(Clone, Debug)]
pub struct State {
    pub kernel: Vec<Item>,
    pub items: BTreeMap<Item, TokSet>,
    pub trans: BTreeMap<X, usize>,
}

#[derive(Clone, Debug)]
pub struct Lr {
    pub prods: Vec<RProd>,
    pub nnt: usize,
    pub ntok: usize,
    pub start: u16,
    pub err: u16,
    pub nullable: Vec<bool>,
    pub first: Vec<TokSet>,
    pub states: Vec<State>,
    pub tok_level: Vec<(Assoc, u32)>,
}

fn convert(g: &Cfg) -> Lr {
    let nnt = g.nts.len();
    let start = nnt as u16;
    let err = nnt as u16 + 1;
    let mut prods = vec![];
    if !g.prods.is_empty() {
        prods.push(RProd {
            lhs: start,
            rhs: vec![X::N(g.prods[0].lhs)],
            assoc: Assoc::Non,
            level: 0,
            err_tail: false,
            pred: false,
        });
    }
    for p in &g.prods {
        let (assoc, level) = g.prod_level(p);
        prods.push(RProd {
            lhs: p.lhs,
            rhs: p
                .rhs
                .iter()
                .map(|s| match s {
                    Sym::T(t) => X::T(*t + 1),
                    Sym::N(n) => X::N(*n),
                    Sym::Err => X::N(err),
                })
                .collect(),
            assoc,
            level,
            err_tail: p.rhs.last() == Some(&Sym::Err),
            pred: p.pred.is_some(),
        });
    }
    if g.uses_error() {
        prods.push(RProd {
            lhs: err,
            rhs: vec![],
            assoc: Assoc::Non,
            level: 0,
            err_tail: false,
            pred: false,
        });
    }
    let mut tok_level = vec![(Assoc::Non, 0)];
    for i in 0..g.toks.len() {
        tok_level.push(g.level_of(crate::cfg::PrecRef::Tok(i as u16)));
    }
    Lr {
        prods,
        nnt: nnt + 2,
        ntok: g.toks.len() + 1,
        start,
        err,
        nullable: vec![],
        first: vec![],
        states: vec![],
        tok_level,
    }
}

impl Lr {
    pub fn new(g: &Cfg) -> Lr {
        let mut l = convert(g);
        assert!(l.ntok <= TokSet::SIZE, "machinery: too many tokens");
        l.firsts();
        l.build();
        l
    }

    fn firsts(&mut self) {
        self.nullable = vec![false; self.nnt];
        self.first = vec![TokSet::NONE; self.nnt];
        loop {
            let mut ch = false;
            for p in &self.prods {
                let mut all = true;
                let mut f = TokSet::NONE;
                for x in &p.rhs {
                    match x {
                        X::T(t) => {
                            f |= TokSet::bit(*t);
                            all = false;
                        }
                        X::N(n) => {
                            f |= self.first[*n as usize];
                            all = self.nullable[*n as usize];
                        }
                    }
                    if !all {
                        break;
                    }
                }
                let l = p.lhs as usize;
                if all && !self.nullable[l] {
                    self.nullable[l] = true;
                    ch = true;
                }
                if !(f & !self.first[l]).is_empty() {
                    self.first[l] |= f;
                    ch = true;
                }
            }
            if !ch {
                return;
            }
        }
    }

    fn first_of(&self, xs: &[X], la: TokSet) -> TokSet {
        let mut f = TokSet::NONE;
        for x in xs {
            match x {
                X::T(t) => return f | TokSet::bit(*t),
                X::N(n) => {
                    f |= self.first[*n as usize];
                    if !self.nullable[*n as usize] {
                        return f;
                    }
                }
            }
        }
        f | la
    }

    fn closure(&self, kernel: &BTreeMap<Item, TokSet>) -> BTreeMap<Item, TokSet> {
        let mut m = kernel.clone();
        let mut work: Vec<Item> = m.keys().copied().collect();
        while let Some(it) = work.pop() {
            let la = m[&it];
            let p = &self.prods[it.0 as usize];
            if let Some(X::N(n)) = p.rhs.get(it.1 as usize) {
                let f = self.first_of(&p.rhs[it.1 as usize + 1..], la);
                for (q, r) in self.prods.iter().enumerate() {
                    if r.lhs == *n {
                        let k = (q as u16, 0);
                        match m.get_mut(&k) {
                            Some(s) => {
                                if !(f & !*s).is_empty() {
                                    *s |= f;
                                    work.push(k);
                                }
                            }
                            None => {
                                m.insert(k, f);
                                work.push(k);
                            }
                        }
                    }
                }
            }
        }
        m
    }

    fn build(&mut self) {
        if self.prods.is_empty() {
            return;
        }
        let mut index: HashMap<Vec<Item>, usize> = HashMap::new();
        let mut kernels: Vec<BTreeMap<Item, TokSet>> = vec![[((0, 0), TokSet::bit(0))].into_iter().collect()];
        index.insert(vec![(0, 0)], 0);
        self.states.push(State {
            kernel: vec![(0, 0)],
            items: BTreeMap::new(),
            trans: BTreeMap::new(),
        });
        let mut work = std::collections::BTreeSet::from([0usize]);
        while let Some(s) = work.pop_first() {
            let c = self.closure(&kernels[s]);
            let mut out: BTreeMap<X, BTreeMap<Item, TokSet>> = BTreeMap::new();
            for (it, la) in &c {
                if let Some(x) = self.prods[it.0 as usize].rhs.get(it.1 as usize) {
                    *out.entry(*x).or_default().entry((it.0, it.1 + 1)).or_default() |= *la;
                }
            }
            self.states[s].items = c;
            for (x, k) in out {
                let key: Vec<Item> = k.keys().copied().collect();
                let t = match index.get(&key) {
                    Some(t) => {
                        let mut ch = false;
                        for (i, la) in k {
                            let e = kernels[*t].get_mut(&i).unwrap();
                            if !(la & !*e).is_empty() {
                                *e |= la;
                                ch = true;
                            }
                        }
                        if ch {
                            work.insert(*t);
                        }
                        *t
                    }
                    None => {
                        let t = self.states.len();
                        index.insert(key.clone(), t);
                        kernels.push(k);
                        self.states.push(State {
                            kernel: key,
                            items: BTreeMap::new(),
                            trans: BTreeMap::new(),
                        });
                        work.insert(t);
                        t
                    }
                };
                self.states[s].trans.insert(x, t);
            }
        }
    }

    /// The same automaton by merging the canonical LR(1) collection: used to cross check `build`.
    /// Returns for each LR(0) kernel the look aheads of its closure's items.
    pub fn canonical(&self, limit: usize) -> Option<BTreeMap<Vec<Item>, BTreeMap<Item, TokSet>>> {
        type S1 = BTreeSet<(u16, u16, u16)>;
        let close = |k: &S1| -> S1 {
            let mut m = k.clone();
            let mut work: Vec<(u16, u16, u16)> = m.iter().copied().collect();
            while let Some((p, d, a)) = work.pop() {
                let pr = &self.prods[p as usize];
                if let Some(X::N(n)) = pr.rhs.get(d as usize) {
                    let f = self.first_of(&pr.rhs[d as usize + 1..], TokSet::bit(a));
                    for (q, r) in self.prods.iter().enumerate() {
                        if r.lhs == *n {
                            for t in 0..self.ntok as u16 {
                                if f.has(t) && m.insert((q as u16, 0, t)) {
                                    work.push((q as u16, 0, t));
                                }
                            }
                        }
                    }
                }
            }
            m
        };
        let mut seen: BTreeSet<S1> = BTreeSet::new();
        let k0: S1 = [(0, 0, 0)].into_iter().collect();
        let mut work = vec![k0.clone()];
        seen.insert(k0);
        let mut res: BTreeMap<Vec<Item>, BTreeMap<Item, TokSet>> = BTreeMap::new();
        while let Some(k) = work.pop() {
            if seen.len() > limit {
                return None;
            }
            let c = close(&k);
            let mut core: Vec<Item> = k.iter().map(|x| (x.0, x.1)).collect();
            core.dedup();
            let e = res.entry(core).or_default();
            for (p, d, a) in &c {
                *e.entry((*p, *d)).or_default() |= TokSet::bit(*a);
            }
            let mut out: BTreeMap<X, S1> = BTreeMap::new();
            for (p, d, a) in &c {
                if let Some(x) = self.prods[*p as usize].rhs.get(*d as usize) {
                    out.entry(*x).or_default().insert((*p, d + 1, *a));
                }
            }
            for (_, s) in out {
                if seen.insert(s.clone()) {
                    work.push(s);
                }
            }
        }
        Some(res)
    }

    /// cross check of the two constructions
    pub fn self_check(&self, limit: usize) -> Result<bool, String> {
        let Some(c) = self.canonical(limit) else { return Ok(false) };
        if c.len() != self.states.len() {
            return Err("reference constructions differ in states".into());
        }
        for s in &self.states {
            if c.get(&s.kernel) != Some(&s.items) {
                return Err(format!("reference constructions differ for {:?}", s.kernel));
            }
        }
        Ok(true)
    }

    pub fn resolve(&self) -> Resolved {
        let mut r = Resolved::default();
        for s in &self.states {
            let mut shifts: BTreeMap<u16, usize> = BTreeMap::new();
            let mut gotos: BTreeMap<u16, usize> = BTreeMap::new();
            for (x, t) in &s.trans {
                match x {
                    X::T(k) => {
                        shifts.insert(*k, *t);
                    }
                    X::N(n) => {
                        gotos.insert(*n, *t);
                    }
                }
            }
            let mut reds: Vec<(u16, TokSet)> = s
                .items
                .iter()
                .filter(|(i, _)| i.1 as usize == self.prods[i.0 as usize].rhs.len())
                .map(|(i, la)| (i.0, *la))
                .collect();
            let mut sr = 0;
            let full: BTreeMap<u16, TokSet> = reds.iter().copied().collect();
            let (mut sr_list, mut rr_list) = (vec![], vec![]);
            let all: Vec<u16> = shifts.keys().copied().collect();
            for t in all {
                let mut shift_beaten = false;
                for (p, la) in reds.iter_mut() {
                    if !la.has(t) {
                        continue;
                    }
                    let pr = &self.prods[*p as usize];
                    let tl = self.tok_level[t as usize].1;
                    r.clashes += 1;
                    if tl < pr.level || (tl == pr.level && pr.assoc == Assoc::Left) {
                        shift_beaten = true;
                    } else {
                        *la &= !TokSet::bit(t);
                        if tl == pr.level && pr.assoc != Assoc::Right && !pr.err_tail {
                            sr += 1;
                            sr_list.push((t, shifts[&t], *p, full[p]));
                        }
                    }
                }
                if shift_beaten {
                    shifts.remove(&t);
                    r.shift_dropped = true;
                }
            }
            let mut rr = 0;
            for i in 0..reds.len() {
                for j in i + 1..reds.len() {
                    let both = reds[i].1 & reds[j].1;
                    if both.is_empty() {
                        continue;
                    }
                    let (a, b) =
                        (&self.prods[reds[i].0 as usize], &self.prods[reds[j].0 as usize]);
                    r.clashes += 1;
                    if a.pred {
                        r.pred_choice = true;
                        continue;
                    }
                    if a.err_tail {
                        reds[i].1 &= !both;
                    } else if b.err_tail {
                        reds[j].1 &= !both;
                    } else {
                        reds[j].1 &= !both;
                        rr += 1;
                        rr_list.push((reds[i].0, reds[j].0, both));
                    }
                }
            }
            r.sr += sr;
            r.rr += rr;
            r.sr_list.push(sr_list);
            r.rr_list.push(rr_list);
            r.shifts.push(shifts);
            r.gotos.push(gotos);
            r.reds.push(reds);
        }
        for (i, s) in self.states.iter().enumerate() {
            let mut v = TokSet::NONE;
            if let Some(t) = s.trans.get(&X::N(self.err)) {
                for (p, la) in &r.reds[*t] {
                    if self.prods[*p as usize].err_tail {
                        v |= *la;
                    }
                }
            }
            r.viable.push(v);
            let mut e = TokSet::NONE;
            for (t, _) in &r.shifts[i] {
                e |= TokSet::bit(*t);
            }
            for (_, la) in &r.reds[i] {
                e |= *la;
            }
            r.expect.push(e);
        }
        r
    }
}

#[derive(Clone, Debug, Default)]
pub struct Resolved {
    pub sr: u32,
    pub rr: u32,
    /// per state, (token, state shifted to, production, its look ahead set)
    pub sr_list: Vec<Vec<(u16, usize, u16, TokSet)>>,
    /// per state, (production kept, production set aside, shared tokens)
    pub rr_list: Vec<Vec<(u16, u16, TokSet)>>,
    /// number of (state, token, item) or (state, item, item) clashes met, however decided
    pub clashes: u32,
    pub shift_dropped: bool,
    pub pred_choice: bool,
    pub shifts: Vec<BTreeMap<u16, usize>>,
    pub gotos: Vec<BTreeMap<u16, usize>>,
    /// completed items (production, look ahead) after resolution
    pub reds: Vec<Vec<(u16, TokSet)>>,
    /// tokens for which recovery at this state is viable
    pub viable: Vec<TokSet>,
    pub expect: Vec<TokSet>,
}

impl Resolved {
    pub fn reductions(&self, s: usize, t: u16) -> Vec<u16> {
        self.reds[s].iter().filter(|(_, la)| la.has(t)).map(|(p, _)| *p).collect()
    }
}
