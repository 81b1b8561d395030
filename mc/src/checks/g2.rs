//! C13 and C14: injection by semantic actions, predicates
use crate::cfg::*;
use crate::checks::common::*;
use crate::checks::g1::{make, BOTH, CONFLICTS, RECOVERY};
use crate::ctx::Ctx;
use crate::enumg::*;
use crate::gen::{Opts, Which};
use crate::refparse::*;
use crate::reflr::Lr;
use crate::spaces::*;
use crate::util::*;
use std::rc::Rc;

const IGN: Opts = Opts {
    ign_sr: true,
    ign_rr: true,
    states: false,
};

// ---------------------------------------------------------------- C13

pub const INJECTED: &[&str] = &[
    "S: A B; A: a; B: b",
    "S: L; L: L I|; I: a|b|c a",
    "S: a A|A b; A: c|",
    "S: A A A; A: a|b",
    "S: A|B; A: a b; B: a c",
    "S: A e|A; A: a A|b",
    "S: X a|X b|X; X: ",
    "S: X Y; X: ; Y: a|",
    "S: a b c",
    "S: L; L: L c I|I; I: i|l L r|!",
];

/// how displayed labels look
pub fn shown_label(l: &str) -> String {
    if l.is_empty() {
        String::new()
    } else if l.contains(' ') {
        format!("\"{l}\":")
    } else {
        format!("{l}:")
    }
}

/// pieces of any text made of the grammar's tokens, '?' and white space
pub fn cut(g: &Cfg, text: &str, label: &str) -> Vec<Piece> {
    let mut v = vec![];
    let (mut line, mut col) = (1, 1);
    let sl = shown_label(label);
    let mut rest = text;
    while let Some(c) = rest.chars().next() {
        if c == '\n' {
            line += 1;
            col = 1;
            rest = &rest[1..];
            continue;
        }
        if c.is_whitespace() {
            col += 1;
            rest = &rest[1..];
            continue;
        }
        let n = rest.find(char::is_whitespace).unwrap_or(rest.len());
        let w = &rest[..n];
        let tok = g.toks.iter().position(|t| t.text == w).map(|t| t as u16 + 1);
        assert!(tok.is_some() || w == "?", "machinery: token {w}");
        v.push(Piece {
            tok,
            text: w.into(),
            loc: format!("{sl}{line}:{col}"),
            end_loc: String::new(),
        });
        col += n;
        rest = &rest[n..];
    }
    let e = format!("{sl}{line}:{col}");
    for p in v.iter_mut() {
        p.end_loc = e.clone();
    }
    v
}

/// (production, injected texts with labels)
type Plan = Vec<(usize, Vec<(String, String)>)>;

fn c13_case(ctx: &mut Ctx, g: &Cfg, plan: &Plan, ws: &[Vec<usize>]) {
    let dir = ctx.dir.clone();
    ctx.case(
        || format!("{} injecting {plan:?}", show(g)),
        |st| {
            let mut h = g.clone();
            for (p, texts) in plan {
                let mut code = Cfg::mark_action(*p, h.prods[*p].rhs.len());
                for (t, l) in texts {
                    code += &format!("$INJECT({t:?}.to_string(), {l:?}.to_string()); ");
                }
                h.prods[*p].action = Some(Some(code));
            }
            let l = Lr::new(&h);
            let r = l.resolve();
            let inj = |p: u16| -> Vec<Vec<Piece>> {
                plan.iter()
                    .filter(|(q, _)| *q == p as usize)
                    .flat_map(|(_, t)| t.iter().map(|(t, l)| cut(&h, t, l)))
                    .collect()
            };
            for which in BOTH {
                let gen = make(&h, which, IGN, &dir, st)?;
                let d = Drv {
                    g: &h,
                    l: &l,
                    r: &r,
                    map: &gen.map,
                    choose: &first_declared,
                    inject: Some(&inj),
                    budget: 400 + 30 * plan.iter().map(|x| 1 + x.1.iter().map(|t| t.0.len()).sum::<usize>()).sum::<usize>() as u64,
                };
                for w in ws {
                    let (text, ps) = pieces(&h, w, "t");
                    let want = d.run(&ps, "t:1:1");
                    if want.over {
                        st.add("endless_injection", 1);
                        continue;
                    }
                    let (got, want) =
                        versus(&gen, &d, &text, &ps, "t:1:1").map_err(|e| text_violation(&h, which, &text, format!("injecting {plan:?}: {e}")))?;
                    st.add("transitions", got.steps);
                    st.add("traces_validated_against_impl", 1);
                    st.add("injections", want.injections);
                    st.add("max_injections_in_a_parse", want.injections);
                    if want.injections > 0 && !want.ok {
                        st.add("errors_with_injection", 1);
                    }
                }
            }
            st.sample(|| format!("{} injecting {plan:?}", show(g)));
            Ok(())
        },
    );
}

pub fn c13(ctx: &mut Ctx) {
    c13_wide(ctx);
    let mut pool: Vec<Cfg> = INJECTED.iter().map(|s| parse_grammar(s)).collect();
    let more: Vec<&str> = POOL.iter().chain(RECOVERY).copied().collect();
    for s in more.iter() {
        pool.push(parse_grammar(s));
    }
    for (gi, g) in pool.iter().enumerate() {
        let full = gi < INJECTED.len();
        let n = g.toks.len();
        let k = match (n, full) {
            (0..=2, true) => 4,
            (3, true) => 3,
            (_, true) => 2,
            (0..=3, _) => 3,
            _ => 2,
        } + ctx.pick(0, 1);
        let mut ws = texts(n, k, false);
        // (longer texts of the language, and unexpected text)
        ws.extend(texts(n, 2, true).into_iter().filter(|w| uses_bad(w, g)));
        if !g.uses_error() {
            ws.extend(sentences(g, 12).into_iter().map(|w| w.iter().map(|x| *x as usize).collect::<Vec<_>>()));
        }
        ws.sort();
        ws.dedup();
        let t = |i: usize| g.toks[i].text.as_str();
        let mut inj: Vec<String> = vec!["".into(), " ".into(), "?".into()];
        for i in 0..n {
            inj.push(t(i).into());
        }
        inj.push(format!("{} {}", t(0), t(n - 1)));
        inj.push(format!("{}\n {}", t(n - 1), t(0)));
        inj.push(format!("? {}", t(0)));
        if full {
            for i in 0..n {
                inj.push(format!("{} ? {}\n", t(i), t((i + 1) % n)));
            }
        }
        let label = |p: usize| ["inj", "in j", ""][p % 3].to_string();
        // one production, one text
        for p in 0..g.prods.len() {
            for x in &inj {
                c13_case(ctx, g, &vec![(p, vec![(x.clone(), label(p))])], &ws);
            }
        }
        if !full && !ctx.thorough() {
            continue;
        }
        // one production, two texts; two productions
        let few: Vec<String> = if full { inj.clone() } else { inj[..3 + n.min(2)].to_vec() };
        for p in 0..g.prods.len() {
            for x in &few {
                for y in &few {
                    c13_case(ctx, g, &vec![(p, vec![(x.clone(), "x".into()), (y.clone(), "y y".into())])], &ws);
                }
            }
        }
        for c in combos(g.prods.len(), 2) {
            for x in &few {
                for y in &few {
                    c13_case(ctx, g, &vec![(c[0], vec![(x.clone(), label(0))]), (c[1], vec![(y.clone(), label(1))])], &ws);
                }
            }
        }
    }
}

/// chains of nested injections, many injections by one action, long injected texts and labels
fn c13_wide(ctx: &mut Ctx) {
    for n in ctx.pick(FEW_SIZES, SIZES) {
        let n = *n;
        for k in 0..5 {
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            let (_, g) = families(n).swap_remove(0);
            // (production 2 + i is the alternative of token i)
            let t = |i: usize| g.toks[i % n].text.clone();
            let plan: Plan = match k {
                // token i injects token i + 1
                0 => (0..n - 1).map(|i| (2 + i, vec![(t(i + 1), format!("l{i}"))])).collect(),
                // the first token injects all others, one by one
                1 => vec![(2, (1..n).map(|i| (t(i), format!("l {i}"))).collect())],
                // ... as one text
                2 => vec![(2, vec![((1..n).map(t).collect::<Vec<_>>().join(" "), "all".into())])],
                // ... in lines, under a long label
                3 => vec![(2, vec![((1..n).map(t).collect::<Vec<_>>().join("\n"), "l".repeat(n))])],
                // two injections everywhere, in all but the last few tokens' actions
                _ => (0..6).map(|i| (2 + i, vec![(t(i + 1), "x".into()), (t(n - 1), "y".into())])).collect(),
            };
            let ws: Vec<Vec<usize>> = vec![vec![], vec![0], vec![0, 0], vec![n - 2, 0, n - 1], vec![n - 2], vec![n, 0], vec![0, n, 0], (0..n).rev().take(40).collect()];
            c13_case(ctx, &g, &plan, &ws);
        }
    }
}

// ---------------------------------------------------------------- C14

/// n productions competing, some or all with predicates, all false but one (or all false)
fn c14_wide(ctx: &mut Ctx) {
    for n in ctx.pick(&[3, 4, 9, 10, 11, 17, 33][..], &[3, 4, 9, 10, 11, 12, 13, 17, 33, 65, 101, 129, 257]) {
        let n = *n;
        for before in [0, 7, 250] {
            for last in [true, false] {
                if !ctx.mine() {
                    ctx.skip_case();
                    continue;
                }
                let dir = ctx.dir.clone();
                ctx.case(
                    || format!("{n} productions competing after {before} others, the last with a predicate: {last}"),
                    |st| {
                        let mut g = Cfg::simple(2, 1);
                        g.skips.push("( +)".into());
                        g.nts = (0..=n + 1).map(|i| format!("N{i}")).collect();
                        // (productions in between so that the numbers of the others grow)
                        let b = n as u16 + 1;
                        for i in 1..=n as u16 {
                            g.add(0, vec![Sym::N(i)]);
                        }
                        g.add(0, vec![Sym::T(1), Sym::N(b)]);
                        for i in 0..before {
                            g.add(b, vec![Sym::T(1); i + 1]);
                        }
                        if before == 0 {
                            g.add(b, vec![Sym::T(1)]);
                        }
                        let first = g.prods.len();
                        for i in 1..=n as u16 {
                            g.add(i, vec![Sym::T(0)]);
                        }
                        let preds: Vec<usize> = (first..first + n - !last as usize).collect();
                        for p in &preds {
                            g.prods[*p].pred = Some(format!(" pr({p}, vec![$1.clone()], $? ) "));
                        }
                        let l = Lr::new(&g);
                        let r = l.resolve();
                        crate::checks::g1::c09_one(&g, Which::Aug, r.sr, r.rr, Opts::default(), &dir, st)?;
                        // (the tables ask all predicates in turn, which the evaluator limits)
                        if n > 10 {
                            return Ok(());
                        }
                        let mut gen = make(&g, Which::Aug, IGN, &dir, st)?;
                        for yes in 0..1usize << preds.len() {
                            let says = move |id: usize| yes >> (id - first) & 1 == 1;
                            gen.p.preds = Some(Rc::new(move |id, _, _| says(id as usize)));
                            let preds = preds.clone();
                            let ask = move |c: &[u16], _: &[String], _: u16| -> Option<u16> {
                                c.iter().copied().find(|p| *p == 0 || !preds.contains(&(*p as usize - 1)) || says(*p as usize - 1))
                            };
                            let none = |_: u16| vec![];
                            let d = Drv {
                                g: &g,
                                l: &l,
                                r: &r,
                                map: &gen.map,
                                choose: &ask,
                                inject: Some(&none),
                                budget: 300,
                            };
                            st.add("truth_assignments", 1);
                            for w in [vec![0], vec![0, 0], vec![1, 1]] {
                                let (text, ps) = pieces(&g, &w, "t");
                                let (got, _) = versus(&gen, &d, &text, &ps, "t:1:1")
                                    .map_err(|e| text_violation(&g, Which::Aug, &text, format!("answers {yes:b}: {e}")))?;
                                st.add("transitions", got.steps);
                                st.add("traces_validated_against_impl", 1);
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

pub const PREDS: &[&str] = &[
    "S: A|B; A: a; B: a",
    "S: A|B|C; A: a; B: a; C: a",
    "S: A b|B c|C b; A: a; B: a; C: a",
    "S: L; L: L I|I; I: A|B; A: a|b; B: a|b",
    "S: X Y; X: A|B; A: a b; B: a b; Y: a|",
    "S: A b; A: a",
    "S: a A|A; A: b b|b",
    "S: A|B; A: |a A; B: |a B",
    "S: A S|; A: C|D; C: a b; D: a b; ",
    "E: E p E|E m E|i",
    "S: i S|i S e S|x",
    "S: S L|; L: A d|B d|! d; A: a; B: a",
    "S: A|B|!; A: a b; B: a b",
    "S: A B|a; A: a|; B: A|b",
    "S: A|B; A: a !; B: a !",
    "S: A b|B c; A: a !; B: a !",
    "S: A|B|C; A: a !; B: a; C: a !",
    "S: A|B; A: !; B: a !|",
];

fn c14_case(ctx: &mut Ctx, g: &Cfg, preds: &[usize], k: usize) {
    c14_texts(ctx, g, preds, &|g, _| texts(g.toks.len(), k, false))
}

fn c14_texts(ctx: &mut Ctx, g: &Cfg, preds: &[usize], ws: &dyn Fn(&Cfg, &Lr) -> Vec<Vec<usize>>) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    let limit = ctx.pick(7, 9);
    ctx.case(
        || format!("{} with predicates on {preds:?}", show(g)),
        |st| {
            let mut h = g.clone();
            for p in preds {
                let args: Vec<String> = (1..=h.prods[*p].rhs.len()).map(|k| format!("${k}.clone()")).collect();
                h.prods[*p].pred = Some(format!(" pr({p}, vec![{}], $? ) ", args.join(", ")));
            }
            let l = Lr::new(&h);
            let r = l.resolve();
            // counts
            let mut e = h.clone();
            e.expect_sr = Some(r.sr);
            e.expect_rr = Some(r.rr);
            crate::checks::g1::c09_one(&e, Which::Aug, r.sr, r.rr, Opts::default(), &dir, st)?;
            e.expect_rr = Some(r.rr + 1);
            crate::checks::g1::c09_one(&e, Which::Aug, r.sr, r.rr, Opts::default(), &dir, st)?;
            let mut gen = make(&h, Which::Aug, IGN, &dir, st)?;
            let ws = ws(g, &l);
            // what predicates can be asked: one bit per (predicate, tag, class of the attributes)
            let nt = g.toks.len() + 1;
            let class = |kids: &str, m: usize| -> usize {
                if m == 0 {
                    0
                } else {
                    // where in the text the first token stands
                    kids.split("@t:1:").nth(1).and_then(|x| x.split([' ', ')']).next()).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0) / 2 % 2
                }
            };
            let tag_index: std::collections::HashMap<u16, usize> = gen.map.iter().enumerate().map(|(i, t)| (*t, i)).collect();
            // modes: (bits over ids x tags), (bits over ids x classes), both when small
            for mode in 0..3 {
                let (bt, bc) = match mode {
                    0 => (nt, 1),
                    1 => (1, 2),
                    _ => (nt, 2),
                };
                let bits = preds.len() * bt * bc;
                let all = bits <= limit;
                if mode == 2 && !all {
                    continue;
                }
                let n: u64 = 1 << bits.min(limit);
                for a in 0..n {
                    // (too many bits: the assignment is repeated along them with a shift)
                    let assign = move |id: usize, tag: usize, cl: usize| -> bool {
                        let b = (id * if bt == 1 { 1 } else { bt } + if bt == 1 { 0 } else { tag }) * bc + if bc == 1 { 0 } else { cl };
                        if all {
                            a >> b & 1 == 1
                        } else {
                            let b = b + b / limit;
                            a >> (b % limit) & 1 == 1
                        }
                    };
                    let ids: Vec<usize> = preds.to_vec();
                    let ti = tag_index.clone();
                    let ids2 = ids.clone();
                    gen.p.preds = Some(Rc::new(move |id, attrs, tag| {
                        let kids: Vec<String> = attrs.iter().map(|x| x.show()).collect();
                        let i = ids2.iter().position(|x| *x as i64 == id).expect("known predicate");
                        assign(i, ti[&tag], class(&kids.join(" "), bc - 1))
                    }));
                    let h2 = &h;
                    let ask = move |c: &[u16], stack: &[String], t: u16| -> Option<u16> {
                        c.iter().copied().find(|p| {
                            if *p == 0 {
                                return true;
                            }
                            let Some(q) = h2.prods.get(*p as usize - 1) else { return true };
                            if q.pred.is_none() {
                                return true;
                            }
                            let i = ids.iter().position(|x| *x == *p as usize - 1).unwrap();
                            let kids = stack[stack.len() - q.rhs.len()..].join(" ");
                            assign(i, t as usize, class(&kids, bc - 1))
                        })
                    };
                    let none = |_: u16| vec![];
                    let d = Drv {
                        g: &h,
                        l: &l,
                        r: &r,
                        map: &gen.map,
                        choose: &ask,
                        inject: Some(&none),
                        budget: 300,
                    };
                    st.add("truth_assignments", 1);
                    for w in &ws {
                        let (text, ps) = pieces(&h, w, "t");
                        if d.run(&ps, "t:1:1").over {
                            st.add("endless_parses_of_ambiguous_grammars", 1);
                            continue;
                        }
                        let (got, _) = versus(&gen, &d, &text, &ps, "t:1:1")
                            .map_err(|e| text_violation(&h, Which::Aug, &text, format!("answers {a:b} mode {mode}: {e}")))?;
                        st.add("transitions", got.steps);
                        st.add("traces_validated_against_impl", 1);
                    }
                }
            }
            st.sample(|| format!("{}: {} texts, conflicts {} {}", show(&h), ws.len(), r.sr, r.rr));
            Ok(())
        },
    );
}

pub fn c14(ctx: &mut Ctx) {
    c14_wide(ctx);
    for (_, text) in crate::corpus::CORPUS {
        let (g, ps) = crate::corpus::read(text);
        if ps.is_empty() {
            continue;
        }
        let all = ctx.thorough();
        let ws = |g: &Cfg, _: &Lr| -> Vec<Vec<usize>> {
            let s: Vec<Vec<usize>> = crate::spaces::covering(g).iter().map(|w| w.iter().map(|t| *t as usize).collect()).collect();
            if all {
                crate::corpus::damaged(&s, &[0])
            } else {
                s
            }
        };
        c14_texts(ctx, &g, &ps, &ws);
        // (every pair and, with it, those in between)
        for n in 1..=2 {
            for c in combos(ps.len(), n) {
                let some: Vec<usize> = c.iter().map(|i| ps[*i]).collect();
                c14_texts(ctx, &g, &some, &ws);
            }
        }
    }
    for s in PREDS {
        let g = parse_grammar(s);
        let k = match g.toks.len() {
            1 => 5,
            2 => 4,
            _ => 3,
        } + ctx.pick(0, 1);
        for n in 1..=g.prods.len().min(ctx.pick(3, 4)) {
            for c in combos(g.prods.len(), n) {
                c14_case(ctx, &g, &c, k);
            }
        }
    }
    for s in CONFLICTS.iter().chain(POOL) {
        let g = parse_grammar(s);
        let k = match g.toks.len() {
            1 => 5,
            2 => 4,
            _ => 3,
        };
        for n in 1..=ctx.pick(2, 3) {
            for c in combos(g.prods.len(), n) {
                c14_case(ctx, &g, &c, k);
            }
        }
    }
    // every pair of alternatives that compete, over two level grammars
    let n = ctx.pick(1, 2);
    let f = &mut |c: &mut Ctx, g: &Cfg| {
        for k in 1..=n {
            for s in combos(g.prods.len(), k) {
                c14_case(c, g, &s, 3);
            }
        }
    };
    // (the number of cases must not depend on the worker: the spaces call f only for its own, so a
    // list is made first)
    let mut gs: Vec<Cfg> = vec![];
    let rh = rhss(&syms(2, 2), 0, 2);
    for s in alts(rh.len(), 2, 2) {
        let sg: Vec<Vec<Sym>> = s.iter().map(|i| rh[*i].clone()).collect();
        if !sg.iter().flatten().any(|x| *x == Sym::N(1)) {
            continue;
        }
        for a in alts(rh.len(), 1, ctx.pick(1, 2)) {
            let ag: Vec<Vec<Sym>> = a.iter().map(|i| rh[*i].clone()).collect();
            let x = [sg.clone(), ag];
            let g = from_groups(2, &x);
            if g.productive().iter().all(|x| *x) && canonical(&x, 2) {
                gs.push(g);
            }
        }
    }
    for g in &gs {
        f(ctx, g);
    }
}
