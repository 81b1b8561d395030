//! Enumerations of grammars.
use crate::cfg::{Cfg, Sym};
use crate::util::{arrangements, combos};

/// all right hand sides over the given symbols with length in lo..=hi, shortest first
pub fn rhss(syms: &[Sym], lo: usize, hi: usize) -> Vec<Vec<Sym>> {
    crate::util::strings(syms, hi).into_iter().filter(|r| r.len() >= lo).collect()
}

pub fn syms(ntok: usize, nnt: usize) -> Vec<Sym> {
    let mut v: Vec<Sym> = (0..ntok as u16).map(Sym::T).collect();
    v.extend((0..nnt as u16).map(Sym::N));
    v
}

/// all sets of lo..=hi alternatives out of n
pub fn alts(n: usize, lo: usize, hi: usize) -> Vec<Vec<usize>> {
    (lo..=hi).flat_map(|k| combos(n, k)).collect()
}

/// is the grammar the smallest among those obtained by renaming tokens and non start symbols?
pub fn canonical(groups: &[Vec<Vec<Sym>>], ntok: usize) -> bool {
    let nnt = groups.len();
    let enc = |gs: &[Vec<Vec<Sym>>]| -> Vec<Vec<Vec<Sym>>> {
        gs.iter()
            .map(|g| {
                let mut g = g.clone();
                g.sort();
                g
            })
            .collect()
    };
    let me = enc(groups);
    for tp in arrangements(ntok, ntok) {
        for np in arrangements(nnt - 1, nnt - 1) {
            let ren = |s: &Sym| match s {
                Sym::T(t) => Sym::T(tp[*t as usize] as u16),
                Sym::N(0) => Sym::N(0),
                Sym::N(n) => Sym::N(np[*n as usize - 1] as u16 + 1),
                Sym::Err => Sym::Err,
            };
            let mut other: Vec<Vec<Vec<Sym>>> = vec![vec![]; nnt];
            for (i, g) in groups.iter().enumerate() {
                let j = if i == 0 { 0 } else { np[i - 1] + 1 };
                other[j] = g.iter().map(|r| r.iter().map(ren).collect()).collect();
            }
            if enc(&other) < me {
                return false;
            }
        }
    }
    true
}

pub fn from_groups(ntok: usize, groups: &[Vec<Vec<Sym>>]) -> Cfg {
    let mut g = Cfg::simple(ntok, groups.len());
    for (i, gr) in groups.iter().enumerate() {
        for r in gr {
            g.add(i as u16, r.clone());
        }
    }
    g.skips.push("(\\s+)".into());
    g
}

pub fn all_reachable(g: &Cfg) -> bool {
    g.reachable().iter().all(|x| *x)
}

/// "S: A b | ; A: c ." with single letters: upper case non terminals, lower case tokens, '!' %error
pub fn parse_grammar(s: &str) -> Cfg {
    let mut groups: Vec<(char, Vec<Vec<char>>)> = vec![];
    for part in s.split(';') {
        let part = part.trim();
        if part.is_empty() {
            continue;
        }
        let (l, r) = part.split_once(':').expect("rule");
        let alts = r
            .split('|')
            .map(|a| a.chars().filter(|c| !c.is_whitespace()).collect())
            .collect();
        groups.push((l.trim().chars().next().unwrap(), alts));
    }
    let mut toks: Vec<char> = groups
        .iter()
        .flat_map(|g| g.1.iter().flatten().copied())
        .filter(|c| c.is_lowercase())
        .collect();
    toks.sort();
    toks.dedup();
    let mut g = Cfg::default();
    for c in &toks {
        g.toks.push(crate::cfg::Tok {
            name: format!("T{}", c.to_uppercase()),
            def: format!("\"{c}\""),
            text: c.to_string(),
        });
    }
    for (n, _) in &groups {
        g.nts.push(n.to_string());
    }
    for (i, (_, alts)) in groups.iter().enumerate() {
        for a in alts {
            let rhs = a
                .iter()
                .map(|c| {
                    if *c == '!' {
                        Sym::Err
                    } else if c.is_lowercase() {
                        Sym::T(toks.iter().position(|x| x == c).unwrap() as u16)
                    } else {
                        Sym::N(groups.iter().position(|x| x.0 == *c).expect("nt") as u16)
                    }
                })
                .collect();
            g.add(i as u16, rhs);
        }
    }
    g.skips.push("(\\s+)".into());
    g
}

/// compact description
pub fn show(g: &Cfg) -> String {
    let mut s = String::new();
    let mut last = None;
    for p in &g.prods {
        if last == Some(p.lhs) {
            s += " |";
        } else {
            if last.is_some() {
                s += "; ";
            }
            s += &format!("{}:", g.nts[p.lhs as usize]);
        }
        last = Some(p.lhs);
        for x in &p.rhs {
            match x {
                Sym::T(t) => s += &format!(" {}", g.toks[*t as usize].text),
                Sym::N(n) => s += &format!(" {}", g.nts[*n as usize]),
                Sym::Err => s += " %error",
            }
        }
        if let Some(pr) = p.prec {
            s += &format!(" %prec{pr:?}");
        }
        if let Some(pr) = &p.pred {
            s += &format!(" ?({pr}?)");
        }
    }
    for (a, l) in &g.levels {
        s += &format!(" [{a:?} {l:?}]");
    }
    s
}

/// Earley recogniser over token ids
pub fn derives(g: &Cfg, input: &[u16]) -> bool {
    use std::collections::HashSet;
    let n = input.len();
    let start = g.nts.len() as u16;
    let mut rules: Vec<(u16, Vec<Sym>)> = vec![(start, vec![Sym::N(g.prods[0].lhs)])];
    rules.extend(g.prods.iter().map(|p| (p.lhs, p.rhs.clone())));
    let mut nullable = vec![false; g.nts.len() + 1];
    loop {
        let mut ch = false;
        for (l, r) in &rules {
            if !nullable[*l as usize]
                && r.iter().all(|s| match s {
                    Sym::N(k) => nullable[*k as usize],
                    Sym::T(_) => false,
                    Sym::Err => true,
                })
            {
                nullable[*l as usize] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut sets: Vec<HashSet<(usize, usize, usize)>> = vec![HashSet::new(); n + 1];
    sets[0].insert((0, 0, 0));
    for i in 0..=n {
        let mut work: Vec<_> = sets[i].iter().copied().collect();
        while let Some((r, d, o)) = work.pop() {
            let mut push = |it: (usize, usize, usize), sets: &mut Vec<HashSet<_>>| {
                if sets[i].insert(it) {
                    work.push(it);
                }
            };
            match rules[r].1.get(d) {
                None => {
                    let l = rules[r].0;
                    let back: Vec<_> = sets[o]
                        .iter()
                        .copied()
                        .filter(|(r2, d2, _)| rules[*r2].1.get(*d2) == Some(&Sym::N(l)))
                        .collect();
                    for (r2, d2, o2) in back {
                        push((r2, d2 + 1, o2), &mut sets);
                    }
                }
                Some(Sym::N(k)) => {
                    for (q, (l, _)) in rules.iter().enumerate() {
                        if l == k {
                            push((q, 0, i), &mut sets);
                        }
                    }
                    if nullable[*k as usize] {
                        push((r, d + 1, o), &mut sets);
                    }
                }
                Some(Sym::Err) => push((r, d + 1, o), &mut sets),
                Some(Sym::T(t)) => {
                    if i < n && input[i] == *t {
                        sets[i + 1].insert((r, d + 1, o));
                    }
                }
            }
        }
    }
    sets[n].contains(&(0, 1, 0))
}
