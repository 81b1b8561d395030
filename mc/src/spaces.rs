//! The enumerated spaces of grammars.
use crate::cfg::{Cfg, Sym};
use crate::ctx::Ctx;
use crate::enumg::*;
use crate::util::*;

pub type Visit<'a> = &'a mut dyn FnMut(&mut Ctx, &Cfg);

pub fn two_level(ctx: &mut Ctx, smax: usize, amax: usize, canon: bool, f: Visit) {
    let rh = rhss(&syms(2, 2), 0, 2);
    let sa = alts(rh.len(), 1, smax);
    let aa = alts(rh.len(), 1, amax);
    for s in &sa {
        let sg: Vec<Vec<Sym>> = s.iter().map(|i| rh[*i].clone()).collect();
        if !sg.iter().flatten().any(|x| *x == Sym::N(1)) {
            continue;
        }
        for a in &aa {
            let ag: Vec<Vec<Sym>> = a.iter().map(|i| rh[*i].clone()).collect();
            let gs = [sg.clone(), ag];
            if canon && !canonical(&gs, 2) {
                continue;
            }
            if ctx.mine() {
                f(ctx, &from_groups(2, &gs));
            } else {
                ctx.skip_case();
            }
        }
    }
}

pub fn one_level(ctx: &mut Ctx, max: usize, f: Visit) {
    let rh = rhss(&syms(2, 1), 0, 3);
    for s in alts(rh.len(), 1, max) {
        let gs = [s.iter().map(|i| rh[*i].clone()).collect::<Vec<_>>()];
        if !canonical(&gs, 2) {
            continue;
        }
        if ctx.mine() {
            f(ctx, &from_groups(2, &gs));
        } else {
            ctx.skip_case();
        }
    }
}

/// three non terminals, three tokens: S offers A and B in different contexts, so that LR(1) states
/// merge
pub fn merging(ctx: &mut Ctx, sub: usize, f: Visit) {
    use Sym::{N, T};
    let mut shapes: Vec<Vec<Sym>> = vec![];
    for n in [1, 2] {
        shapes.push(vec![N(n)]);
        for t in 0..3 {
            shapes.push(vec![T(t), N(n)]);
            shapes.push(vec![N(n), T(t)]);
            for u in 0..3 {
                if u == t && sub == 1 {
                    continue;
                }
                shapes.push(vec![T(t), N(n), T(u)]);
            }
        }
        for m in [1, 2] {
            shapes.push(vec![N(n), N(m)]);
        }
    }
    let asub: Vec<Vec<Sym>> = vec![
        vec![],
        vec![T(2)],
        vec![T(0), N(2)],
        vec![N(2)],
        vec![N(1), T(2)],
        vec![T(2), N(1)],
        vec![N(2), T(1)],
        vec![N(2), N(2), T(0)],
    ];
    let bsub: Vec<Vec<Sym>> = vec![
        vec![],
        vec![T(2)],
        vec![T(1), N(2)],
        vec![N(2), T(2)],
        vec![T(0), N(1), T(0)],
        vec![N(1), T(0)],
        vec![T(2), T(2)],
    ];
    let aalts = alts(asub.len(), 1, sub);
    let balts = alts(bsub.len(), 1, sub);
    for s in combos(shapes.len(), 2) {
        for a in &aalts {
            for b in &balts {
                if !ctx.mine() {
                    ctx.skip_case();
                    continue;
                }
                let gs = [
                    s.iter().map(|i| shapes[*i].clone()).collect::<Vec<_>>(),
                    a.iter().map(|i| asub[*i].clone()).collect(),
                    b.iter().map(|i| bsub[*i].clone()).collect(),
                ];
                let g = from_groups(3, &gs);
                f(ctx, &g);
            }
        }
    }
}

pub const POOL: &[&str] = &[
    // LALR(1) but not SLR(1)
    "S: Aa|bAc|dc|bda; A: d",
    "S: Le R|R; L: m R|i; R: L",
    // four S alternatives, LALR merging without conflict
    "S: aAd|bBd|aBe|bAf; A: c; B: ck",
    "S: a A d|b A e; A: c|c A",
    // expression grammar
    "E: E p T|T; T: T m F|F; F: l E r|i",
    // nullable chains
    "S: A B C; A: a|; B: b|; C: c|",
    "S: A B C d; A: a A|; B: b B|; C: c C|",
    "S: A S b|; A: a|c",
    // mutually recursive
    "S: A; A: B a|a; B: A b|b",
    "S: a B|b A|; A: a S|b A A; B: b",
    "S: L; L: L s I|I; I: x|l L r",
    // hidden left recursion over a non nullable prefix, right recursion
    "S: A; A: a A b|c|B; B: d B|e",
    "S: S a|S b|",
    "S: a S|b S|",
    "S: A B; A: A a|; B: b B|",
    // dangling else free version
    "S: M|U; M: i M e M|x; U: i S|i M e U",
    "S: C C; C: c C|d",
    "S: A a|B b; A: C; B: C d; C: c|",
    "P: D S; D: D d|; S: S s|",
    "S: x A y|x B z|w A z|w B y; A: q A|q; B: r",
];

/// the same grammar under all assignments of names
pub fn naming(ctx: &mut Ctx, f: Visit) {
    let tn = ["Alpha", "Mid", "Zed", "Beta", "Ypsi"];
    let nn = ["Sx", "Ax", "Zx", "Mx"];
    for s in POOL {
        let g0 = parse_grammar(s);
        if g0.toks.len() > 5 || g0.nts.len() > 4 {
            continue;
        }
        for tp in arrangements(g0.toks.len(), g0.toks.len()) {
            for np in arrangements(g0.nts.len(), g0.nts.len()) {
                if !ctx.mine() {
                    ctx.skip_case();
                    continue;
                }
                let mut g = g0.clone();
                for (i, t) in g.toks.iter_mut().enumerate() {
                    t.name = tn[tp[i]].to_string();
                }
                for (i, t) in g.nts.iter_mut().enumerate() {
                    *t = nn[np[i]].to_string();
                }
                g.by_name = np[0] % 2 == 0;
                f(ctx, &g);
            }
        }
    }
}

/// the pool's grammars as they are
pub fn pool(ctx: &mut Ctx, f: Visit) {
    for s in POOL {
        if !ctx.mine() {
            ctx.skip_case();
            continue;
        }
        f(ctx, &parse_grammar(s));
    }
}

pub fn families(n: usize) -> Vec<(String, Cfg)> {
    use Sym::{N, T};
    let mut out = vec![];
    let mk = |ntok: usize, nnt: usize| {
        let mut g = Cfg::default();
        for i in 0..ntok {
            g.toks.push(crate::cfg::Tok {
                name: format!("K{i}"),
                def: format!("\"k{i}\""),
                text: format!("k{i}"),
            });
        }
        for i in 0..nnt {
            g.nts.push(format!("N{i}"));
        }
        g.skips.push("(\\s+)".into());
        g
    };
    // n tokens in a list
    let mut g = mk(n, 2);
    g.add(0, vec![N(0), N(1)]);
    g.add(0, vec![]);
    for i in 0..n {
        g.add(1, vec![T(i as u16)]);
    }
    out.push((format!("list of {n} alternatives"), g));
    // chain of n unit productions
    let mut g = mk(2, n + 1);
    for i in 0..n {
        g.add(i as u16, vec![N(i as u16 + 1)]);
    }
    g.add(n as u16, vec![T(0), N(0)]);
    g.add(n as u16, vec![T(1)]);
    out.push((format!("chain of {n}"), g));
    // n nullable symbols in sequence
    let mut g = mk(n, n + 1);
    g.add(0, (0..n).map(|i| N(i as u16 + 1)).collect());
    for i in 0..n {
        g.add(i as u16 + 1, vec![T(i as u16)]);
        g.add(i as u16 + 1, vec![]);
    }
    out.push((format!("{n} optional"), g));
    // one rhs of length n
    let mut g = mk(2, 2);
    let mut r: Vec<Sym> = vec![];
    for i in 0..n {
        r.push(if i % 3 == 2 { N(1) } else { T((i % 2) as u16) });
    }
    g.add(0, r);
    g.add(1, vec![T(0)]);
    g.add(1, vec![T(1), T(0)]);
    out.push((format!("rhs of length {n}"), g));
    // n levels of binary operators
    let mut g = mk(n + 1, n + 1);
    for i in 0..n {
        g.add(i as u16, vec![N(i as u16), T(i as u16), N(i as u16 + 1)]);
        g.add(i as u16, vec![N(i as u16 + 1)]);
    }
    g.add(n as u16, vec![T(n as u16)]);
    out.push((format!("{n} operator levels"), g));
    // mutual recursion in a ring of n
    let mut g = mk(n + 1, n);
    for i in 0..n {
        g.add(i as u16, vec![T(i as u16), N(((i + 1) % n) as u16)]);
        g.add(i as u16, vec![T(n as u16)]);
    }
    out.push((format!("ring of {n}"), g));
    // left recursive ring: every symbol starts with the next one
    let mut g = mk(n + 1, n);
    for i in 0..n {
        g.add(i as u16, vec![N(((i + 1) % n) as u16), T(i as u16)]);
        if i + 1 == n {
            g.add(i as u16, vec![T(n as u16)]);
        }
    }
    out.push((format!("left recursive ring of {n}"), g));
    out
}

/// sizes at which counters, indices, buffers and widths of numbers change
pub const SIZES: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300];

pub const FEW_SIZES: &[usize] = &[16, 17, 33, 65, 100, 129, 257];

/// is i next to a number at which widths change (or one of the last of n)?
pub fn near(i: usize, n: usize) -> bool {
    i < 3 || i + 3 >= n || [9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 254, 255, 256, 257].contains(&i)
}

/// the families at the sizes beyond those enumerated one by one
pub fn wide(ctx: &mut Ctx, sizes: &[usize], f: &mut dyn FnMut(&mut Ctx, &str, &Cfg)) {
    for n in sizes {
        for k in 0..7 {
            // (operators: the generator's time grows with the fourth power)
            if k == 4 && *n > ctx.pick(17, 33) {
                continue;
            }
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            let (name, g) = families(*n).swap_remove(k);
            f(ctx, &name, &g);
        }
    }
    for (name, text) in crate::corpus::CORPUS {
        let (g, preds) = crate::corpus::read(text);
        if !g.levels.is_empty() || g.uses_error() || !preds.is_empty() {
            continue;
        }
        if !ctx.mine() {
            ctx.skip_case();
            continue;
        }
        f(ctx, name, &g);
    }
}

/// for every production a shortest sentence whose derivation uses it
pub fn covering(g: &Cfg) -> Vec<Vec<u16>> {
    let n = g.nts.len();
    let mut short: Vec<Option<Vec<u16>>> = vec![None; n];
    let yields = |rhs: &[Sym], short: &[Option<Vec<u16>>]| -> Option<Vec<u16>> {
        let mut w = vec![];
        for s in rhs {
            match s {
                Sym::T(t) => w.push(*t),
                Sym::N(n) => w.extend(short[*n as usize].as_ref()?),
                Sym::Err => return None,
            }
        }
        Some(w)
    };
    loop {
        let mut ch = false;
        for p in &g.prods {
            if let Some(w) = yields(&p.rhs, &short) {
                let l = p.lhs as usize;
                if short[l].as_ref().is_none_or(|x| x.len() > w.len()) {
                    short[l] = Some(w);
                    ch = true;
                }
            }
        }
        if !ch {
            break;
        }
    }
    // contexts
    let mut con: Vec<Option<(Vec<u16>, Vec<u16>)>> = vec![None; n];
    con[g.prods[0].lhs as usize] = Some((vec![], vec![]));
    let mut work = std::collections::VecDeque::from([g.prods[0].lhs]);
    while let Some(x) = work.pop_front() {
        let (a, b) = con[x as usize].clone().unwrap();
        for p in g.prods.iter().filter(|p| p.lhs == x) {
            for (i, s) in p.rhs.iter().enumerate() {
                if let Sym::N(k) = s {
                    if con[*k as usize].is_none() {
                        if let (Some(mut u), Some(v)) = (yields(&p.rhs[..i], &short), yields(&p.rhs[i + 1..], &short)) {
                            let mut l = a.clone();
                            l.append(&mut u);
                            let mut r = v;
                            r.extend(&b);
                            con[*k as usize] = Some((l, r));
                            work.push_back(*k);
                        }
                    }
                }
            }
        }
    }
    let mut out = std::collections::BTreeSet::new();
    for p in &g.prods {
        if let (Some((a, b)), Some(w)) = (&con[p.lhs as usize], yields(&p.rhs, &short)) {
            out.insert([a.as_slice(), &w, b].concat());
        }
    }
    out.into_iter().collect()
}

/// sentences of the grammar: all shortest expansions where production i is used, plus pumped ones
pub fn sentences(g: &Cfg, limit: usize) -> Vec<Vec<u16>> {
    // breadth first leftmost expansion of sentential forms, bounded
    let mut shortest: Vec<Option<Vec<u16>>> = vec![None; g.nts.len()];
    loop {
        let mut ch = false;
        for p in &g.prods {
            let mut w = vec![];
            let ok = p.rhs.iter().all(|s| match s {
                Sym::T(t) => {
                    w.push(*t);
                    true
                }
                Sym::N(n) => match &shortest[*n as usize] {
                    Some(x) => {
                        w.extend(x);
                        true
                    }
                    None => false,
                },
                Sym::Err => true,
            });
            if ok
                && shortest[p.lhs as usize].as_ref().is_none_or(|x| x.len() > w.len())
            {
                shortest[p.lhs as usize] = Some(w);
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let finish = |form: &[Sym]| -> Option<Vec<u16>> {
        let mut w = vec![];
        for s in form {
            match s {
                Sym::T(t) => w.push(*t),
                Sym::N(n) => w.extend(shortest[*n as usize].as_ref()?),
                Sym::Err => (),
            }
        }
        Some(w)
    };
    let mut out = vec![];
    let mut queue = std::collections::VecDeque::from([vec![Sym::N(g.prods[0].lhs)]]);
    let mut seen = std::collections::BTreeSet::new();
    let mut forms = std::collections::BTreeSet::new();
    let mut rounds = 0;
    while let Some(f) = queue.pop_front() {
        rounds += 1;
        if out.len() >= limit || rounds > 30 * limit {
            break;
        }
        if let Some(w) = finish(&f) {
            if w.len() <= 200 && seen.insert(w.clone()) {
                out.push(w);
            }
        }
        for (i, s) in f.iter().enumerate() {
            if let Sym::N(n) = s {
                for p in g.prods.iter().filter(|p| p.lhs == *n) {
                    if f.len() + p.rhs.len() > 100 || queue.len() > 4 * limit {
                        continue;
                    }
                    let mut h = f[..i].to_vec();
                    h.extend(&p.rhs);
                    h.extend(&f[i + 1..]);
                    if forms.insert(h.clone()) {
                        queue.push_back(h);
                    }
                }
                break;
            }
        }
    }
    out
}

