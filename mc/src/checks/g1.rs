//! C08 to C12: semantic actions, conflicts, precedences, error detection and recovery
use crate::cfg::*;
use crate::checks::common::*;
use crate::corpus::{self, CORPUS};
use crate::ctx::Ctx;
use crate::dynp::{Attr, Event};
use crate::enumg::*;
use crate::gen::{Opts, Refusal, Which};
use crate::refparse::*;
use crate::reflr::Lr;
use crate::spaces::*;
use crate::util::*;
use std::path::Path;

pub const BOTH: [Which; 2] = [Which::Plain, Which::Aug];
const IGN: Opts = Opts {
    ign_sr: true,
    ign_rr: true,
    states: false,
};

pub fn make(g: &Cfg, which: Which, o: Opts, dir: &Path, st: &mut Stats) -> Result<Gen, Violation> {
    match build(g, which, o, dir)? {
        Ok(p) => {
            st.add("parsers_generated", 1);
            st.add("states", p.t.action.len() as u64);
            Gen::new(p, g, which)
        }
        Err(r) => Err(refused(g, which, &r, "")),
    }
}

fn as_usize(w: &[u16]) -> Vec<usize> {
    w.iter().map(|x| *x as usize).collect()
}

// ---------------------------------------------------------------- C08

/// is `a` a derivation tree for `want` covering ps[*at..]?  Appends the productions in post order.
fn tree(
    g: &Cfg,
    a: &Attr,
    want: Sym,
    ps: &[Piece],
    at: &mut usize,
    gen: &Gen,
    out: &mut Vec<i64>,
) -> Result<(), String> {
    match (want, a) {
        (Sym::T(t), Attr::Tok(tag, lexeme, loc)) => {
            let Some(p) = ps.get(*at) else { return Err("too many tokens".into()) };
            if p.tok != Some(t + 1) || gen.map[t as usize + 1] != *tag || p.text != *lexeme || p.loc != *loc {
                return Err(format!("{} instead of {}@{}", a.show(), p.text, p.loc));
            }
            *at += 1;
            Ok(())
        }
        (Sym::N(n), Attr::Node(i, kids)) => {
            let Some(p) = g.prods.get(*i as usize) else { return Err(format!("no production {i}")) };
            if p.lhs != n || p.rhs.len() != kids.len() {
                return Err(format!("{} where {} was expected", a.show(), g.nts[n as usize]));
            }
            for (s, k) in p.rhs.iter().zip(kids) {
                tree(g, k, *s, ps, at, gen, out)?;
            }
            out.push(*i);
            Ok(())
        }
        _ => Err(format!("attribute {} for {want:?}", a.show())),
    }
}

/// the real parser's tree of an accepted text
pub fn tree_check(g: &Cfg, gen: &Gen, w: &[usize], st: &mut Stats) -> CheckResult {
    let (text, ps) = pieces(g, w, "t");
    let bad = |how: String| text_violation(g, gen.which, &text, how);
    let r = gen.p.parse(&text, "t").map_err(bad)?;
    st.add("transitions", r.steps);
    st.add("traces_validated_against_impl", 1);
    if r.result.is_err() {
        return Err(bad(format!("not accepted: {:?}", r.result)));
    }
    let Some(root) = r.root() else { return Err(bad("no action was run".into())) };
    let mut order = vec![];
    let mut at = 0;
    tree(g, root, Sym::N(g.prods[0].lhs), &ps, &mut at, gen, &mut order).map_err(bad)?;
    if at != ps.len() {
        return Err(bad(format!("the tree covers {at} of {} tokens", ps.len())));
    }
    let done: Vec<i64> = r
        .events
        .iter()
        .map(|e| match e {
            Event::Reduce(_, Attr::Node(i, _)) => *i,
            _ => -1,
        })
        .collect();
    if done != order {
        return Err(bad(format!("actions run {done:?} but the tree's are {order:?}")));
    }
    Ok(())
}

fn c08_case(ctx: &mut Ctx, g: &Cfg, words: &dyn Fn(&Cfg) -> Vec<Vec<usize>>, missing: usize) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || show(g),
        |st| {
            if !clean(g, st) {
                return Ok(());
            }
            let ws = words(g);
            if ws.is_empty() {
                return Ok(());
            }
            st.add("grammars_conflict_free", 1);
            for which in BOTH {
                let gen = make(g, which, Opts::default(), &dir, st)?;
                for w in &ws {
                    tree_check(g, &gen, w, st)?;
                }
                // productions without actions, with reversed and repeated references
                for k in 0..=missing {
                    for c in combos(g.prods.len(), k) {
                        for variant in 0..2 {
                            if k == 0 && variant == 0 {
                                continue;
                            }
                            let mut h = g.clone();
                            for i in 0..h.prods.len() {
                                if c.contains(&i) {
                                    h.prods[i].action = Some(None);
                                }
                            }
                            action_variant(&h, which, variant, &ws, &dir, st)?;
                        }
                    }
                }
            }
            st.sample(|| format!("{}: {} texts, e.g. {:?}", show(g), ws.len(), pieces(g, &ws[ws.len() / 2], "t").0));
            Ok(())
        },
    );
}

fn action_variant(
    h: &Cfg,
    which: Which,
    variant: usize,
    ws: &[Vec<usize>],
    dir: &Path,
    st: &mut Stats,
) -> CheckResult {
    let mut h = h.clone();
    // variant 1: arguments in reverse and the first twice; the reference's attributes are permuted alike
    if variant == 1 {
        for (i, p) in h.prods.iter_mut().enumerate() {
            if p.action.is_none() {
                let n = p.rhs.len();
                let mut v: Vec<String> = (1..=n).rev().map(|k| format!("$ {k}.clone()").replace(' ', "")).collect();
                // (repeating a non terminal would double the attribute's size at every level)
                if let Some(k) = p.rhs.iter().position(|x| matches!(x, Sym::T(_))) {
                    v.push(format!("${}.clone()", k + 1));
                }
                p.action = Some(Some(format!("$$=act({i},vec![{}]);", v.join(","))));
            }
        }
    }
    let gen = make(&h, which, Opts::default(), dir, st)?;
    let l = Lr::new(&h);
    let res = l.resolve();
    for w in ws {
        let (text, ps) = pieces(&h, w, "t");
        let bad = |how: String| text_violation(&h, which, &text, format!("{how} (variant {variant})"));
        let r = gen.p.parse(&text, "t").map_err(bad)?;
        st.add("transitions", r.steps);
        st.add("traces_validated_against_impl", 1);
        // reference attributes along the reductions the plain marking parser makes
        let d = Drv {
            g: &h,
            l: &l,
            r: &res,
            map: &gen.map,
            choose: &first_declared,
            inject: None,
            budget: 3_000,
        };
        let want = d.run_with(&ps, "t:1:1", &|p, kids| match &h.prods[p].action {
            Some(None) => kids.first().cloned().unwrap_or_else(|| "-".into()),
            Some(Some(_)) => {
                let mut v: Vec<String> = kids.iter().rev().cloned().collect();
                if let Some(k) = h.prods[p].rhs.iter().position(|x| matches!(x, Sym::T(_))) {
                    v.push(kids[k].clone());
                }
                format!("{p}({})", v.join(" "))
            }
            None => format!("{p}({})", kids.join(" ")),
        });
        let a: Vec<String> = r
            .events
            .iter()
            .map(|e| match e {
                Event::Reduce(_, a) => a.show(),
                Event::Error(e) => e.show(),
            })
            .collect();
        let b: Vec<String> = want
            .events
            .iter()
            .map(|e| match e {
                REvent::Reduce(_, a) => a.clone(),
                REvent::Error(e) => e.clone(),
            })
            .collect();
        if a != b || r.result.is_ok() != want.ok {
            return Err(bad(format!("attributes {a:?} but should be {b:?}")));
        }
    }
    Ok(())
}

pub fn c08(ctx: &mut Ctx) {
    let l2 = Lang::new(2, ctx.pick(5, 7));
    let l3 = Lang::new(3, ctx.pick(4, 5));
    let inlang = |lang: &Lang, g: &Cfg| -> Vec<Vec<usize>> {
        let ls = lang.languages(g);
        let l = &ls[g.prods[0].lhs as usize];
        (0..lang.words.len()).filter(|i| Lang::has(l, *i)).map(|i| as_usize(&lang.words[i])).collect()
    };
    one_level(ctx, ctx.pick(2, 3), &mut |c, g| c08_case(c, g, &|g| inlang(&l2, g), 1));
    if ctx.thorough() {
        two_level(ctx, 3, 2, false, &mut |c, g| c08_case(c, g, &|g| inlang(&l2, g), 0));
        merging(ctx, 2, &mut |c, g| c08_case(c, g, &|g| inlang(&l3, g), 0));
    } else {
        two_level(ctx, 2, 2, true, &mut |c, g| c08_case(c, g, &|g| inlang(&l2, g), 0));
        two_level(ctx, 1, 2, true, &mut |c, g| c08_case(c, g, &|g| inlang(&l2, g), 1));
        merging(ctx, 1, &mut |c, g| c08_case(c, g, &|g| inlang(&l3, g), 0));
    }
    let lim = ctx.pick(60, 400);
    let subsets = ctx.pick(2, 3);
    pool(ctx, &mut |c, g| {
        c08_case(c, g, &|g| sentences(g, lim).iter().map(|w| as_usize(w)).collect(), subsets)
    });
    for n in 1..=ctx.pick(14, 40) {
        for k in 0..7 {
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            let (_, g) = families(n).swap_remove(k);
            c08_case(ctx, &g, &|g| sentences(g, lim).iter().map(|w| as_usize(w)).collect(), 0);
        }
    }
    let all = ctx.thorough();
    wide(ctx, ctx.pick(FEW_SIZES, SIZES), &mut |c, _, g| {
        c08_case(
            c,
            g,
            &|g| {
                let v = covering(g);
                let n = v.len();
                v.iter().enumerate().filter(|(i, _)| all || near(*i, n)).map(|(_, w)| as_usize(w)).collect()
            },
            0,
        )
    });
    tails(ctx);
}

/// what may follow the symbols of a production, in every combination, with and without an action
fn tails(ctx: &mut Ctx) {
    // (what the action computes with, whether the symbols' attributes are used)
    let bodies: Vec<Option<&str>> = vec![
        None,
        Some("$$=act(#,vec![@]);"),
        Some(" { $$ = act(#, vec![@]); } "),
        Some("if true { $$ = act(#, vec![@]); } else { $$ = act(#, vec![]); }"),
        Some(" { { { } } } $$ = act(#, vec![@]); { } "),
        Some("\n // a comment } ! { with braces\n $$ = act(#, vec![@]);\n"),
        Some("/* }!} */ $$ = act(#, vec![@]);"),
        Some(" let c = \"}\"; let d = '{'; $$ = act(#, vec![@]); "),
        Some("$$=act(#,vec![@]); // at the end\n"),
        Some(" match true { true => { $$ = act(#, vec![@]); } false => {} } "),
    ];
    let grammars = ["E: E p E|E m E|i", "S: a B c|B; B: b|", "S: L; L: L a|b"];
    for s in grammars {
        let g0 = parse_grammar(s);
        let l = Lang::new(g0.toks.len(), 4);
        for p in 0..g0.prods.len() {
            for (prec, pred) in [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2)] {
                for (bi, body) in bodies.iter().enumerate() {
                    if bi == 6 {
                        // (an action ends at the first "!}" whatever it is in)
                        continue;
                    }
                    for others in [true, false] {
                        // (an empty production has no %prec)
                        if (prec > 0 && g0.prods[p].rhs.is_empty()) || !ctx.mine() {
                            ctx.skip_case();
                            continue;
                        }
                        let dir = ctx.dir.clone();
                        ctx.case(
                            || format!("{s} production {p}, %prec {prec}, predicate {pred}, body {body:?}, others marking: {others}"),
                            |st| {
                                let mut g = g0.clone();
                                g.tags = vec!["LOW".into()];
                                let all: Vec<PrecRef> = (0..g.toks.len() as u16).map(PrecRef::Tok).collect();
                                g.levels = vec![(Assoc::Left, vec![PrecRef::Tag(0)]), (Assoc::Left, all)];
                                g.prods[p].prec = match prec {
                                    0 => None,
                                    1 => Some(PrecRef::Tok(0)),
                                    _ => Some(PrecRef::Tag(0)),
                                };
                                g.prods[p].pred = match pred {
                                    0 => None,
                                    1 => Some(" true ".into()),
                                    _ => Some(" { let b = true; b } || (false && !false) ".into()),
                                };
                                let n = g.prods[p].rhs.len();
                                let args: Vec<String> = (1..=n).map(|k| format!("${k}.clone()")).collect();
                                g.prods[p].action = Some(body.map(|b| b.replace('#', &p.to_string()).replace('@', &args.join(", "))));
                                if !others {
                                    for (i, q) in g.prods.iter_mut().enumerate() {
                                        if i != p {
                                            q.action = Some(None);
                                        }
                                    }
                                }
                                let ls = l.languages(&g);
                                let lang = &ls[g.prods[0].lhs as usize];
                                let lr = Lr::new(&g);
                                let res = lr.resolve();
                                for which in BOTH {
                                    if which == Which::Plain && pred > 0 {
                                        continue;
                                    }
                                    let gen = make(&g, which, IGN, &dir, st)?;
                                    let d = Drv {
                                        g: &g,
                                        l: &lr,
                                        r: &res,
                                        map: &gen.map,
                                        choose: &first_declared,
                                        inject: None,
                                        budget: 3_000,
                                    };
                                    for (i, w) in l.words.iter().enumerate() {
                                        if !Lang::has(lang, i) {
                                            continue;
                                        }
                                        let (text, ps) = pieces(&g, &as_usize(w), "t");
                                        let (got, _) = versus(&gen, &d, &text, &ps, "t:1:1")
                                            .map_err(|e| text_violation(&g, which, &text, format!("{e} (body {body:?})")))?;
                                        st.add("transitions", got.steps);
                                        st.add("traces_validated_against_impl", 1);
                                    }
                                }
                                Ok(())
                            },
                        );
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C09

fn declared(g: &Cfg, sr: Option<u32>, rr: Option<u32>) -> Cfg {
    let mut h = g.clone();
    h.expect_sr = sr;
    h.expect_rr = rr;
    h
}

pub fn c09_one(
    g: &Cfg,
    which: Which,
    sr: u32,
    rr: u32,
    o: Opts,
    dir: &Path,
    st: &mut Stats,
) -> CheckResult {
    let (dsr, drr) = (g.expect_sr.unwrap_or(0), g.expect_rr.unwrap_or(0));
    let bad_sr = sr != dsr && !o.ign_sr;
    let bad_rr = rr != drr && !o.ign_rr;
    st.add("traces_validated_against_impl", 1);
    let got = crate::gen::generate(which, &g.spec(), "spec", o, dir);
    let ok = match &got {
        Ok(_) => !bad_sr && !bad_rr,
        Err(Refusal::Sr(a, d)) => bad_sr && *a == sr && *d == dsr,
        Err(Refusal::Rr(a, d)) => bad_rr && *a == rr && *d == drr,
        Err(_) => false,
    };
    if ok {
        st.add(if got.is_ok() { "generated" } else { "refused" }, 1);
        return Ok(());
    }
    let got = got.map(|_| "generated");
    Err(Violation::new(
        format!(
            "{}: {} has {sr} shift/reduce and {rr} reduce/reduce conflicts, declared {dsr} and {drr}, ignored {} and {}: {got:?}",
            which.name(),
            show(g),
            o.ign_sr,
            o.ign_rr
        ),
        g.spec(),
        format!("{} {} {dsr} {drr} {} {}", which.name(), show(g), o.ign_sr, o.ign_rr),
    ))
}

fn c09_case(ctx: &mut Ctx, g: &Cfg, full: bool) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || show(g),
        |st| {
            if !g.productive().iter().all(|x| *x) {
                return Ok(());
            }
            st.add("grammars_enumerated", 1);
            let l = Lr::new(g);
            if let Err(e) = l.self_check(400) {
                panic!("machinery: {e}");
            }
            let r = l.resolve();
            st.add("states", l.states.len() as u64);
            st.add("transitions", l.states.iter().map(|s| s.trans.len() as u64).sum());
            st.add("shift_reduce_conflicts", r.sr as u64);
            st.add("reduce_reduce_conflicts", r.rr as u64);
            for which in BOTH {
                if full {
                    let opts = |n: u32| -> Vec<Option<u32>> {
                        let mut v = vec![None, Some(0), Some(n), Some(n + 1), Some(4_000_000_000)];
                        if n > 0 {
                            v.push(Some(n - 1))
                        }
                        v
                    };
                    for sr in opts(r.sr) {
                        for rr in opts(r.rr) {
                            for ign in 0..4 {
                                let o = Opts {
                                    ign_sr: ign & 1 == 1,
                                    ign_rr: ign & 2 == 2,
                                    states: false,
                                };
                                c09_one(&declared(g, sr, rr), which, r.sr, r.rr, o, &dir, st)?;
                            }
                        }
                    }
                } else {
                    c09_one(&declared(g, None, None), which, r.sr, r.rr, Opts::default(), &dir, st)?;
                    if r.sr + r.rr > 0 {
                        // exactly one of the two numbers wrong, so that both counts are seen
                        let o = Opts {
                            ign_sr: true,
                            ..Opts::default()
                        };
                        c09_one(&declared(g, None, None), which, r.sr, r.rr, o, &dir, st)?;
                        c09_one(&declared(g, Some(r.sr), Some(r.rr)), which, r.sr, r.rr, Opts::default(), &dir, st)?;
                    }
                }
            }
            st.sample(|| format!("{}: {} shift/reduce, {} reduce/reduce", show(g), r.sr, r.rr));
            Ok(())
        },
    );
}

pub const CONFLICTS: &[&str] = &[
    "E: E p E|E m E|i",
    "E: E E|i",
    "E: E E|i|",
    "S: i S|i S e S|x",
    "S: A|B; A: a; B: a",
    "S: A|B|C; A: a; B: a; C: a",
    "S: A|B|C; A: a|; B: a|; C: a|",
    "S: A d|B e|C d; A: c; B: c; C: c",
    "S: a A d|b B d|a B e|b A e; A: c; B: c",
    "S: A a|a; A: |a",
    "S: S S|S S S|a|",
    "S: L a|a a; L: a L|",
    "S: A B|a; A: a|; B: A|b",
    "E: E p E|n E|E q|i|l E r",
    "S: A|A; A: a",
    "S: A x|B x|a x; A: a; B: a",
    "E: E p E|E m E|E q E c E|n E|i|l E r",
];

pub fn c09(ctx: &mut Ctx) {
    for s in CONFLICTS.iter().chain(POOL) {
        let g = parse_grammar(s);
        c09_case(ctx, &g, true);
    }
    one_level(ctx, 3, &mut |c, g| c09_case(c, g, false));
    if ctx.thorough() {
        two_level(ctx, 3, 2, true, &mut |c, g| c09_case(c, g, false));
        two_level(ctx, 2, 3, true, &mut |c, g| c09_case(c, g, false));
        merging(ctx, 2, &mut |c, g| c09_case(c, g, false));
        two_level(ctx, 1, 2, true, &mut |c, g| c09_case(c, g, true));
    } else {
        two_level(ctx, 2, 2, true, &mut |c, g| c09_case(c, g, false));
        merging(ctx, 1, &mut |c, g| c09_case(c, g, false));
    }
    for (_, text) in CORPUS {
        let (mut g, _) = corpus::read(text);
        // without precedences there are many conflicts
        g.levels.clear();
        g.tags.clear();
        for p in &mut g.prods {
            p.prec = None;
        }
        if !g.uses_error() {
            c09_case(ctx, &g, false);
        }
    }
    // many conflicts at once
    let mut ns: Vec<usize> = (1..ctx.pick(8, 20)).collect();
    ns.extend(ctx.pick(&[10, 15, 16, 17, 23, 24][..], &[23, 24, 32, 33, 64, 65][..]));
    for n in ns {
        for g in conflict_families(n) {
            c09_case(ctx, &g, n < 4);
        }
    }
    // hundreds in one state
    for n in ctx.pick(&[128, 129, 256, 257][..], &[127, 128, 129, 255, 256, 257, 300][..]) {
        for k in 0..3 {
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            let g = crowded(*n, k);
            c09_case(ctx, &g, false);
        }
    }
}

/// many shift/reduce, many reduce/reduce conflicts
/// n conflicts in one state: 0: shift/reduce; 1: reduce/reduce; 2: one of the latter, over n tokens
pub fn crowded(n: usize, k: usize) -> Cfg {
    use Sym::{N, T};
    let mut g = Cfg::simple(1, 1);
    g.toks.clear();
    let nt = if k == 1 { 1 } else { n + 1 };
    for i in 0..nt {
        g.toks.push(Tok {
            name: format!("K{i}"),
            def: format!("\"k{i}\""),
            text: format!("k{i}"),
        });
    }
    g.nts = (0..if k == 1 { n + 2 } else { 3 }).map(|i| format!("N{i}")).collect();
    if k == 1 {
        for i in 0..=n as u16 {
            g.add(0, vec![N(i + 1)]);
        }
        for i in 0..=n as u16 {
            g.add(i + 1, vec![T(0)]);
        }
        return g;
    }
    for i in 1..=n as u16 {
        g.add(0, vec![N(1), T(i)]);
        g.add(0, if k == 0 { vec![T(0), T(i), T(0)] } else { vec![N(2), T(i), T(0)] });
    }
    g.add(1, vec![T(0)]);
    g.add(2, vec![T(0)]);
    if k == 0 {
        g.add(0, vec![N(2)]);
    }
    g
}

pub fn conflict_families(n: usize) -> Vec<Cfg> {
    let mut out = vec![];
    let mut g = Cfg::simple(2, 1);
    g.toks.clear();
    for i in 0..=n {
        g.toks.push(Tok {
            name: format!("K{i}"),
            def: format!("\"k{i}\""),
            text: format!("k{i}"),
        });
    }
    for i in 0..n {
        g.add(0, vec![Sym::N(0), Sym::T(i as u16), Sym::N(0)]);
    }
    g.add(0, vec![Sym::T(n as u16)]);
    out.push(g);
    let mut g = Cfg::simple(1, 1);
    g.nts = (0..=n).map(|i| format!("N{i}")).collect();
    for i in 0..n {
        g.add(0, vec![Sym::N(i as u16 + 1)]);
    }
    for i in 0..n {
        g.add(i as u16 + 1, vec![Sym::T(0)]);
    }
    out.push(g);
    out
}


// ---------------------------------------------------------------- C10

/// every way of putting a subset of `items` into ordered levels, with every associativity
pub fn levels(items: &[PrecRef], max_levels: usize) -> Vec<Vec<(Assoc, Vec<PrecRef>)>> {
    // level number (0: none) of each item
    let n = items.len();
    let mut out = vec![];
    let nums: Vec<usize> = (0..=n.min(max_levels)).collect();
    for v in strings(&nums, n).into_iter().filter(|v| v.len() == n) {
        let m = v.iter().copied().max().unwrap_or(0);
        if (1..=m).any(|k| !v.contains(&k)) {
            continue;
        }
        let assocs = [Assoc::Left, Assoc::Right, Assoc::Non];
        for a in strings(&assocs, m).into_iter().filter(|a| a.len() == m) {
            out.push(
                (0..m)
                    .map(|k| (a[k], (0..n).filter(|i| v[*i] == k + 1).map(|i| items[i]).collect()))
                    .collect(),
            );
        }
    }
    out
}

/// every text up to length k plus, for every state, a text that leads there followed by each token
pub fn cover(l: &Lr, ntok: usize, k: usize) -> Vec<Vec<usize>> {
    let mut t: std::collections::BTreeSet<Vec<usize>> = texts(ntok, k, false).into_iter().collect();
    for a in access(l) {
        for x in 0..ntok {
            let mut w = a.clone();
            w.push(x);
            t.insert(w);
        }
        t.insert(a);
    }
    let mut v: Vec<_> = t.into_iter().collect();
    v.sort_by_key(|w| (w.len(), w.clone()));
    v
}

/// for every state a token string whose shifts (after reductions) end there
pub fn access(l: &Lr) -> Vec<Vec<usize>> {
    // shortest yields
    let mut short: Vec<Option<Vec<usize>>> = vec![None; l.nnt];
    loop {
        let mut ch = false;
        for p in &l.prods {
            let mut w = vec![];
            let ok = p.rhs.iter().all(|x| match x {
                crate::reflr::X::T(t) => {
                    w.push(*t as usize - 1);
                    true
                }
                crate::reflr::X::N(n) => match &short[*n as usize] {
                    Some(v) => {
                        w.extend(v);
                        true
                    }
                    None => false,
                },
            });
            if ok && short[p.lhs as usize].as_ref().is_none_or(|v| v.len() > w.len()) {
                short[p.lhs as usize] = Some(w);
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut acc: Vec<Option<Vec<usize>>> = vec![None; l.states.len()];
    acc[0] = Some(vec![]);
    let mut work = std::collections::VecDeque::from([0usize]);
    while let Some(s) = work.pop_front() {
        for (x, t) in &l.states[s].trans {
            if acc[*t].is_some() {
                continue;
            }
            let mut w = acc[s].clone().unwrap();
            match x {
                crate::reflr::X::T(k) => w.push(*k as usize - 1),
                crate::reflr::X::N(n) => match &short[*n as usize] {
                    Some(v) => w.extend(v),
                    None => continue,
                },
            }
            acc[*t] = Some(w);
            work.push_back(*t);
        }
    }
    acc.into_iter().flatten().collect()
}

/// does the reference parser end on this text without error?
fn compare_all(
    g: &Cfg,
    l: &Lr,
    gen: &Gen,
    ws: &[Vec<usize>],
    choose: Choose,
    must_end: bool,
    st: &mut Stats,
) -> CheckResult {
    let res = l.resolve();
    for w in ws {
        let d = Drv {
            g,
            l,
            r: &res,
            map: &gen.map,
            choose,
            inject: None,
            budget: (8 * (g.prods.len() + 4) * (w.len() + 2)).max(600) as u64,
        };
        let (text, ps) = pieces(g, w, "t");
        let want = d.run(&ps, "t:1:1");
        if !must_end && (want.over || want.livelock) {
            st.add("endless_parses_of_ambiguous_grammars", 1);
            continue;
        }
        assert!(!want.over, "machinery: {text:?} of {} takes too long", show(g));
        match versus(gen, &d, &text, &ps, "t:1:1") {
            Ok((got, want)) => {
                st.add("transitions", got.steps);
                st.add("traces_validated_against_impl", 1);
                st.add("error_recoveries", want.recoveries);
                if want.ok {
                    st.add("texts_accepted", 1);
                }
            }
            Err(how) => return Err(text_violation(g, gen.which, &text, how)),
        }
    }
    Ok(())
}

fn c10_case(ctx: &mut Ctx, g: &Cfg, k: usize, lang: &Lang) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || show(g),
        |st| {
            let l = Lr::new(g);
            let r = l.resolve();
            st.add("grammars_enumerated", 1);
            st.add("clashes_decided", r.clashes as u64);
            st.add("conflicts_counted", (r.sr + r.rr) as u64);
            let must_end = false;
            let ws = cover(&l, g.toks.len(), k);
            let ls = lang.languages(g);
            let start = &ls[g.prods[0].lhs as usize];
            for which in BOTH {
                // the counts: accepted with exactly these, not with others
                let h = declared(g, Some(r.sr), Some(r.rr));
                let gen = make(&h, which, Opts::default(), &dir, st)?;
                let h2 = declared(g, Some(r.sr + 1), Some(r.rr + 1));
                c09_one(&h2, which, r.sr, r.rr, Opts::default(), &dir, st)?;
                compare_all(g, &l, &gen, &ws, &first_declared, must_end, st)?;
                // never outside the language
                if !g.uses_error() {
                    for (i, w) in lang.words.iter().enumerate() {
                        let (text, _) = pieces(g, &as_usize(w), "t");
                        let p = gen.p.parse(&text, "t").map_err(|e| text_violation(g, which, &text, e))?;
                        if p.result.is_ok() && !Lang::has(start, i) {
                            return Err(text_violation(g, which, &text, "accepted but not in the language".into()));
                        }
                    }
                }
            }
            st.sample(|| {
                format!("{}: {} clashes, {} texts, e.g. {:?}", show(g), r.clashes, ws.len(), pieces(g, ws.last().unwrap(), "t").0)
            });
            Ok(())
        },
    );
}

/// trees of binary operator grammars against precedence climbing
fn climb(w: &[usize], lv: &dyn Fn(usize) -> (Assoc, u32)) -> Option<String> {
    // operands are token 0; op k is token k with production k (operand: production 0)
    fn expr(
        w: &[usize],
        i: &mut usize,
        min: Option<(Assoc, u32)>,
        lv: &dyn Fn(usize) -> (Assoc, u32),
    ) -> Option<String> {
        if w.get(*i) != Some(&0) {
            return None;
        }
        *i += 1;
        let mut left = "x".to_string();
        while let Some(op) = w.get(*i) {
            if *op == 0 {
                return None;
            }
            let (a, l) = lv(*op);
            if let Some((_, m)) = min {
                if l < m || (l == m && a == Assoc::Left) {
                    return Some(left);
                }
            }
            *i += 1;
            let right = expr(w, i, Some((a, l)), lv)?;
            left = format!("({left} {op} {right})");
        }
        Some(left)
    }
    let mut i = 0;
    let e = expr(w, &mut i, None, lv)?;
    if i == w.len() {
        Some(e)
    } else {
        None
    }
}

fn shape(a: &Attr) -> String {
    match a {
        Attr::Node(0, _) => "x".into(),
        Attr::Node(i, k) if k.len() == 3 => format!("({} {i} {})", shape(&k[0]), shape(&k[2])),
        a => a.show(),
    }
}

pub const PREC: &[(&str, usize)] = &[
    ("E: E p E|E m E|i", 0),
    ("E: E p E|n E|i", 1),
    ("E: E p E|p E|i", 1),
    ("E: E p E|E q E c E|i", 0),
    ("E: E E|E p E|i", 1),
    ("S: i S|i S e S|x", 1),
    ("E: E p|p E|i", 1),
    ("S: A|B|a b; A: a; B: a", 1),
    ("S: A a|a A b|; A: a|", 0),
    ("E: E O E|i; O: p|m", 0),
    ("S: S L|; L: a d|!|a !", 0),
    ("S: A|B; A: a !|a; B: a|!", 0),
];

pub fn c10(ctx: &mut Ctx) {
    for (s, tags) in PREC {
        let g0 = parse_grammar(s);
        let nt = g0.toks.len();
        let k = ctx.pick(4, 6);
        let lang = Lang::new(nt, ctx.pick(5, 6));
        let nprec = if *tags == 0 && !ctx.thorough() { 0 } else { 1 };
        let mut items: Vec<PrecRef> = (0..nt as u16).map(PrecRef::Tok).collect();
        if *tags > 0 {
            items.push(PrecRef::Tag(0));
        }
        // (tags only where they are used)
        let prec_choices: Vec<PrecRef> = items.clone();
        for np in 0..=nprec {
            for ps in combos(g0.prods.len(), np) {
                for pc in strings(&prec_choices, np).into_iter().filter(|v| v.len() == np) {
                    let uses_tag = pc.iter().any(|p| matches!(p, PrecRef::Tag(_)));
                    let its: Vec<PrecRef> = items
                        .iter()
                        .copied()
                        .filter(|p| uses_tag || matches!(p, PrecRef::Tok(_)))
                        .collect();
                    for lv in levels(&its, ctx.pick(2, 3)) {
                        if !ctx.thorough() && its.len() > 3 && lv.iter().any(|l| l.0 == Assoc::Non && l.1.len() > 1) {
                            continue;
                        }
                        if !ctx.mine() {
                            ctx.skip_case();
                            continue;
                        }
                        let mut g = g0.clone();
                        if uses_tag {
                            g.tags = vec!["TAG".into()];
                        }
                        g.levels = lv;
                        for (i, p) in ps.iter().zip(&pc) {
                            g.prods[*i].prec = Some(*p);
                        }
                        // a tag must be declared to be used
                        if uses_tag && !g.levels.iter().any(|l| l.1.contains(&PrecRef::Tag(0))) {
                            ctx.skip_case();
                            continue;
                        }
                        c10_case(ctx, &g, k, &lang);
                    }
                }
            }
        }
    }
    many_levels(ctx);
    corpus_levels(ctx);
    // binary operators against precedence climbing
    let nops = ctx.pick(3, 4);
    let items: Vec<PrecRef> = (1..=nops as u16).map(PrecRef::Tok).collect();
    for lv in levels(&items, nops) {
        let dir = ctx.dir.clone();
        let depth = ctx.pick(4, 5);
        ctx.case(
            || format!("operators with levels {lv:?}"),
            |st| {
                let mut g = Cfg::simple(nops + 1, 1);
                g.skips.push("( +)".into());
                g.add(0, vec![Sym::T(0)]);
                for i in 1..=nops {
                    g.add(0, vec![Sym::N(0), Sym::T(i as u16), Sym::N(0)]);
                }
                g.levels = lv.clone();
                for which in BOTH {
                    let gen = make(&g, which, IGN, &dir, st)?;
                    let ops: Vec<usize> = (1..=nops).collect();
                    for o in strings(&ops, depth) {
                        let mut w = vec![0];
                        for x in &o {
                            w.push(*x);
                            w.push(0);
                        }
                        let want = climb(&w, &|t| g.level_of(PrecRef::Tok(t as u16))).expect("expression");
                        let (text, _) = pieces(&g, &w, "t");
                        let r = gen.p.parse(&text, "t").map_err(|e| text_violation(&g, which, &text, e))?;
                        let got = r.root().map(shape).unwrap_or_default();
                        st.add("transitions", r.steps);
                        st.add("traces_validated_against_impl", 1);
                        if got != want || r.result.is_err() {
                            return Err(text_violation(&g, which, &text, format!("grouped {got} but should be {want}")));
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

fn corpus_levels(ctx: &mut Ctx) {
    for (name, text) in CORPUS {
        corpus_case(ctx, name, text);
    }
}

/// many levels: two operators at every pair of chosen levels, the others taken by tags
fn many_levels(ctx: &mut Ctx) {
    for n in [9, 10, 17, 33, 65, 101, 129, 255, 256, 257, 258, 300, 65_536, 65_537] {
        let at: Vec<usize> = if n > 300 { vec![0, 1, n - 1] } else { vec![] };
        let at: Vec<usize> = (0..n).filter(|_| n <= 300).filter(|i| if ctx.thorough() { near(*i, n) } else { [0, 15, 127, 254, 255, 256].contains(i) || *i + 2 >= n }).chain(at).collect();
        for a in &at {
            for b in &at {
                if !ctx.mine() {
                    ctx.skip_case();
                    continue;
                }
                let dir = ctx.dir.clone();
                ctx.case(
                    || format!("{n} levels, operators at {a} and {b}"),
                    |st| {
                        // (tokens: i, m, p)
                        let mut g = parse_grammar("E: E p E|E m E|i");
                        for i in 0..n {
                            let mut v = vec![];
                            if i == *a {
                                v.push(PrecRef::Tok(2));
                            }
                            if i == *b {
                                v.push(PrecRef::Tok(1));
                            }
                            if v.is_empty() {
                                g.tags.push(format!("T{i}"));
                                v.push(PrecRef::Tag((g.tags.len() - 1) as u16));
                            }
                            g.levels.push(([Assoc::Left, Assoc::Right][i % 2], v));
                        }
                        let l = Lr::new(&g);
                        let ws = cover(&l, g.toks.len(), 0);
                        for which in BOTH {
                            let gen = make(&g, which, Opts::default(), &dir, st)?;
                            compare_all(&g, &l, &gen, &ws, &first_declared, true, st)?;
                            for o in strings(&[0usize, 1], 4) {
                                let mut w = vec![0];
                                for x in &o {
                                    w.push(*x + 1);
                                    w.push(0);
                                }
                                let want = climb(&w, &|t| g.level_of(PrecRef::Tok(3 - t as u16))).expect("expression");
                                // (the climber's operators 1 and 2 are p and m)
                                let v: Vec<usize> = w.iter().enumerate().map(|(i, x)| if i % 2 == 0 { 0 } else { 3 - x }).collect();
                                let (text, _) = pieces(&g, &v, "t");
                                let r = gen.p.parse(&text, "t").map_err(|e| text_violation(&g, which, &text, e))?;
                                fn sh(a: &Attr) -> String {
                                    match a {
                                        Attr::Node(2, _) => "x".into(),
                                        Attr::Node(i, k) if k.len() == 3 => format!("({} {} {})", sh(&k[0]), i + 1, sh(&k[2])),
                                        a => a.show(),
                                    }
                                }
                                let got = r.root().map(sh).unwrap_or_default();
                                st.add("traces_validated_against_impl", 1);
                                if got != want || r.result.is_err() {
                                    return Err(text_violation(&g, which, &text, format!("grouped {got} but should be {want}")));
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}

// ---------------------------------------------------------------- C11

fn c11_case(ctx: &mut Ctx, g: &Cfg, lang: &Lang, kbad: usize) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || show(g),
        |st| {
            if !g.productive().iter().all(|x| *x) || !clean(g, st) {
                return Ok(());
            }
            st.add("grammars_conflict_free", 1);
            let l = Lr::new(g);
            let res = l.resolve();
            let ls = lang.languages(g);
            let start = &ls[g.prods[0].lhs as usize];
            let pre = lang.prefixes(g, &ls);
            let kmax = lang.words.last().map(|w| w.len()).unwrap_or(0);
            let nt = g.toks.len();
            // texts with unexpected text at every place
            let mut ws: Vec<Vec<usize>> = lang.words.iter().map(|w| as_usize(w)).collect();
            ws.extend(texts(nt, kbad, true).into_iter().filter(|w| uses_bad(w, g)));
            for which in BOTH {
                let gen = make(g, which, Opts::default(), &dir, st)?;
                let d = Drv {
                    g,
                    l: &l,
                    r: &res,
                    map: &gen.map,
                    choose: &first_declared,
                    inject: None,
                    budget: 3_000,
                };
                for w in &ws {
                    let (text, ps) = pieces(g, w, "t");
                    let bad = |how: String| text_violation(g, which, &text, how);
                    let (got, want) = versus(&gen, &d, &text, &ps, "t:1:1").map_err(bad)?;
                    st.add("transitions", got.steps);
                    st.add("traces_validated_against_impl", 1);
                    // from the language alone: where and whether
                    let id = |v: &[usize]| lang.id(&v.iter().map(|x| *x as u16).collect::<Vec<_>>());
                    let first_bad = w.iter().position(|t| *t >= nt).unwrap_or(w.len());
                    let viable = |n: usize| Lang::has(&pre, id(&w[..n]));
                    let at = (0..first_bad).find(|i| !viable(i + 1)).unwrap_or(first_bad);
                    let good = at == w.len() && Lang::has(start, id(w));
                    let errs = got.errors();
                    if good {
                        if !errs.is_empty() || got.result.is_err() {
                            return Err(bad("an error is reported for a text in the language".into()));
                        }
                        continue;
                    }
                    st.add("errors_located", 1);
                    if errs.len() != 1 || got.result != Err(errs[0].clone()) {
                        return Err(bad(format!("errors reported {errs:?}, result {:?}", got.result)));
                    }
                    let end = ps.last().map(|p| p.end_loc.clone()).unwrap_or("t:1:1".into());
                    let exp: Vec<u16> = errs[0].expected().to_vec();
                    let offending = match errs[0] {
                        crate::dynp::ErrInfo::Syntax(tag, lex, loc, _) => {
                            let (t, x, o) = match ps.get(at) {
                                Some(p) => (p.tok.map(|t| gen.map[t as usize]), p.text.as_str(), p.loc.clone()),
                                None => (Some(gen.map[0]), "", end),
                            };
                            if t != Some(*tag) || x != lex || o != *loc {
                                return Err(bad(format!("error at {lex:?} {loc} but piece {at} is wrong")));
                            }
                            Some(*tag)
                        }
                        crate::dynp::ErrInfo::Lexical(m, _) => {
                            if at >= ps.len() || ps[at].tok.is_some() || !m.contains(&ps[at].loc) {
                                return Err(bad(format!("lexical error {m} but piece {at} is wrong")));
                            }
                            None
                        }
                    };
                    if let Some(o) = offending {
                        if exp.contains(&o) {
                            return Err(bad("the offending token is said to be expected".into()));
                        }
                    }
                    // (reductions on the offending token may have narrowed the situation down)
                    if at < kmax && !want.reduced_before_error {
                        for t in 0..nt {
                            let mut v = w[..at].to_vec();
                            v.push(t);
                            if Lang::has(&pre, id(&v)) && !exp.contains(&gen.map[t + 1]) {
                                return Err(bad(format!("{} can follow but isn't expected ({exp:?})", g.toks[t].text)));
                            }
                        }
                    }
                    if Lang::has(start, id(&w[..at])) && !want.reduced_before_error && !exp.contains(&gen.map[0]) {
                        return Err(bad("the text can end but the end isn't expected".into()));
                    }
                }
            }
            st.sample(|| format!("{}: {} texts, e.g. {:?}", show(g), ws.len(), pieces(g, &ws[ws.len() - 1], "t").0));
            Ok(())
        },
    );
}

pub fn c11(ctx: &mut Ctx) {
    let l2 = Lang::new(2, ctx.pick(5, 7));
    let l3 = Lang::new(3, ctx.pick(4, 5));
    let kb = ctx.pick(3, 4);
    one_level(ctx, ctx.pick(2, 3), &mut |c, g| c11_case(c, g, &l2, kb));
    if ctx.thorough() {
        two_level(ctx, 3, 2, true, &mut |c, g| c11_case(c, g, &l2, kb));
        merging(ctx, 2, &mut |c, g| c11_case(c, g, &l3, kb));
    } else {
        two_level(ctx, 2, 2, true, &mut |c, g| c11_case(c, g, &l2, kb));
        merging(ctx, 1, &mut |c, g| c11_case(c, g, &l3, 3));
    }
    let mut ls = Langs::default();
    let more = ctx.pick(0, 1);
    pool(ctx, &mut |c, g| {
        let n = g.toks.len();
        let k = match n {
            1..=2 => 7,
            3 => 6,
            4 => 5,
            5 => 4,
            _ => 3,
        };
        c11_case(c, g, ls.get(n, k + more), 4)
    });
    wide(ctx, ctx.pick(FEW_SIZES, SIZES), &mut |c, name, g| c11_wide(c, name, g));
}

/// large grammars: every state's access text followed by each of some tokens, by unexpected text and
/// by the end, against the reference automaton
fn c11_wide(ctx: &mut Ctx, name: &str, g: &Cfg) {
    let dir = ctx.dir.clone();
    let all = ctx.thorough();
    ctx.case(
        || name.to_string(),
        |st| {
            if !clean(g, st) {
                return Ok(());
            }
            st.add("grammars_conflict_free", 1);
            let l = Lr::new(g);
            let nt = g.toks.len();
            let acc = access(&l);
            let n = acc.len();
            let mut ws = std::collections::BTreeSet::new();
            for (i, a) in acc.into_iter().enumerate() {
                if !all && !near(i, n) {
                    continue;
                }
                for t in (0..=nt).filter(|t| near(*t, nt + 1)) {
                    let mut w = a.clone();
                    w.push(t);
                    ws.insert(w);
                }
                ws.insert(a);
            }
            let ws: Vec<Vec<usize>> = ws.into_iter().collect();
            for which in BOTH {
                let gen = make(g, which, Opts::default(), &dir, st)?;
                compare_all(g, &l, &gen, &ws, &first_declared, true, st)?;
            }
            st.add("errors_located", ws.len() as u64);
            Ok(())
        },
    );
}

// ---------------------------------------------------------------- C12

pub const RECOVERY: &[&str] = &[
    "S: S L|; L: a d|! d",
    "S: S L|; L: a d|!",
    "S: L d|S L d; L: a|L b|!",
    "S: L; L: |L T d; T: a|b b|!",
    "S: a S b|c|!",
    "S: a S b|c|a !",
    "S: l E r|!; E: E p T|T|!; T: i|l E r|l ! r",
    "S: l L r; L: L c I|I; I: i|!|l L r",
    "P: D S; D: D d|!|; S: S s|S !|",
    "S: B; B: l M r; M: |M X; X: a d|! d|B",
    "S: A B c; A: a|!; B: b|!",
    "S: ! a",
    "S: a ! !",
    "S: a ! b",
    "S: A; A: a A|!|A b",
    "S: A ! d|B; A: a; B: b !",
    "S: ! A; A: a|b A",
    "S: E d|S E d; E: E p E|i|!|l ! r",
];

fn c12_case(ctx: &mut Ctx, g: &Cfg, k: usize, bad: bool) {
    if !g.uses_error() {
        return;
    }
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || show(g),
        |st| {
            let l = Lr::new(g);
            let r = l.resolve();
            st.add("grammars_enumerated", 1);
            if r.viable.iter().any(|v| !v.is_empty()) {
                st.add("grammars_with_recovery", 1);
            }
            let must_end = r.clashes == 0 && g.productive().iter().all(|x| *x);
            if must_end {
                st.add("grammars_that_must_end", 1);
            }
            let ws = texts(g.toks.len(), k, bad);
            for which in BOTH {
                let gen = make(g, which, IGN, &dir, st)?;
                compare_all(g, &l, &gen, &ws, &first_declared, must_end, st)?;
            }
            st.sample(|| format!("{}: {} texts, e.g. {:?}", show(g), ws.len(), pieces(g, ws.last().unwrap(), "t").0));
            Ok(())
        },
    );
}

/// grammars with recovery over many states, tokens and skipped tokens, with texts
pub fn recovery_family(n: usize, k: usize) -> Option<(String, Cfg, Vec<Vec<usize>>)> {
    use Sym::{Err as E, N, T};
    let mk = |ntok: usize, nnt: usize| {
        let mut g = Cfg::default();
        for i in 0..ntok {
            g.toks.push(Tok {
                name: format!("K{i}"),
                def: format!("\"k{i}\""),
                text: format!("k{i}"),
            });
        }
        for i in 0..nnt {
            g.nts.push(format!("N{i}"));
        }
        g.skips.push("(\\s+)".into());
        g
    };
    let ni = n as u16;
    let near = |i: &usize| near(*i, n);
    let mut ws: Vec<Vec<usize>> = vec![];
    // (6 to 11: the same with the %error in a production of its own, where it can be recovered from)
    let (k, own) = (k % 6, k >= 6);
    let (name, mut g) = match k {
        0 => {
            // a long statement, abandoned after j symbols; j tokens skipped
            let mut g = mk(n + 2, 2);
            g.add(0, vec![N(0), N(1)]);
            g.add(0, vec![]);
            let mut r: Vec<Sym> = (0..ni).map(T).collect();
            r.push(T(ni));
            g.add(1, r);
            g.add(1, vec![E, T(ni)]);
            for j in (0..=n).filter(near) {
                let mut w: Vec<usize> = (0..j).collect();
                w.push(n + 1);
                w.extend(std::iter::repeat_n(n + 1, j));
                w.push(n);
                let mut v = w.clone();
                v.extend(0..=n);
                ws.push(w);
                ws.push(v);
            }
            ("a statement of", g)
        }
        1 => {
            // n tokens after the error
            let mut g = mk(n + 1, 2);
            g.add(0, vec![N(0), N(1)]);
            g.add(0, vec![]);
            for i in 0..ni {
                g.add(1, vec![T(ni), T(i)]);
                g.add(1, vec![E, T(i)]);
            }
            for j in (0..n).filter(near) {
                ws.push(vec![n, j, n, n, j, n, j]);
                ws.push(vec![j, j, n]);
                ws.push(vec![n, n + 1, j]);
            }
            ("an error before each of", g)
        }
        2 => {
            // nested brackets, every kind with its own recovery
            let mut g = mk(2 * n + 1, n + 1);
            for i in 0..ni {
                g.add(i, vec![T(2 * i), N(i + 1), T(2 * i + 1)]);
                g.add(i, vec![E, T(2 * i + 1)]);
            }
            g.add(ni, vec![T(2 * ni)]);
            if 2 * n + 2 > crate::reflr::TokSet::SIZE {
                return None;
            }
            for j in (0..n).filter(near) {
                let mut w: Vec<usize> = (0..j).map(|i| 2 * i).collect();
                w.push(2 * n);
                for i in (0..j).rev() {
                    w.push(2 * i + 1);
                }
                ws.push(w.clone());
                // closing brackets missing
                let m = w.len();
                for x in [m - 1, j + 2, j + 3] {
                    let mut v = w.clone();
                    if x < m {
                        v.remove(x);
                    }
                    ws.push(v);
                }
            }
            ("nested brackets", g)
        }
        3 => {
            // deep recursion given up at once
            let mut g = mk(3, 2);
            g.add(0, vec![N(1), T(2)]);
            g.add(0, vec![E, T(2)]);
            g.add(1, vec![T(0), N(1), T(1)]);
            g.add(1, vec![T(0), T(1)]);
            for a in [0, 1, n] {
                for b in [0, 1, n - 1, n, n + 1] {
                    let mut w = vec![0; a];
                    w.extend(vec![1; b]);
                    let mut v = w.clone();
                    v.push(2);
                    ws.push(w.clone());
                    ws.push(v.clone());
                    w.extend(vec![3; n]);
                    w.push(2);
                    ws.push(w);
                }
            }
            ("a stack of", g)
        }
        4 => {
            // n places to recover at, each of them for the same token
            let mut g = mk(n + 3, 2);
            for i in 0..ni {
                g.add(0, vec![T(i), N(1), T(ni)]);
            }
            g.add(1, vec![T(ni + 1)]);
            g.add(1, vec![T(ni + 2), N(0)]);
            g.add(1, vec![E]);
            let (e, x, b, bad) = (n, n + 1, n + 2, n + 3);
            for i in (0..n).filter(near) {
                ws.push(vec![i, bad, e]);
                ws.push(vec![i, x, x, e]);
                ws.push(vec![i, i, e]);
                for j in [0, 1, n / 2, n - 1] {
                    ws.push(vec![j, b, i, bad, bad, e, e]);
                    ws.push(vec![i, b, j, b, i, e, x, e, e]);
                    ws.push(vec![i, b, j, x, e, b, e]);
                }
            }
            ("places to recover at:", g)
        }
        _ => {
            // many errors one after the other
            let mut g = mk(3, 2);
            g.add(0, vec![N(0), N(1)]);
            g.add(0, vec![]);
            g.add(1, vec![T(0), T(1)]);
            g.add(1, vec![E, T(1)]);
            for x in [vec![1], vec![0, 0, 1], vec![2, 1], vec![3, 1], vec![0, 2, 0, 1]] {
                let mut w = vec![];
                for _ in 0..n {
                    w.extend(&x);
                }
                let mut v = w.clone();
                v.push(0);
                ws.push(w);
                ws.push(v);
            }
            ("errors:", g)
        }
    };
    if own {
        let r = g.nts.len() as u16;
        g.nts.push("RE".into());
        for p in &mut g.prods {
            for s in &mut p.rhs {
                if *s == E {
                    *s = N(r);
                }
            }
        }
        g.add(r, vec![E]);
    }
    Some((format!("{name} {n}{}", if own { ", %error alone" } else { "" }), g, ws))
}

/// texts for realistic grammars: every move of the automaton, and (for a few productions) damaged
/// sentences
pub fn corpus_texts(g: &Cfg, l: &Lr, step: usize) -> Vec<Vec<usize>> {
    let nt = g.toks.len();
    let mut ws: std::collections::BTreeSet<Vec<usize>> = cover(l, nt, 1).into_iter().collect();
    let sent: Vec<Vec<usize>> = covering(g).iter().map(|w| as_usize(w)).collect();
    let some: Vec<Vec<usize>> = sent.iter().step_by(step).cloned().collect();
    ws.extend(sent);
    ws.extend(corpus::damaged(&some, &[0, nt / 3, nt / 2, nt - 1, nt]));
    ws.into_iter().collect()
}

/// realistic grammars with precedences or recovery
fn corpus_case(ctx: &mut Ctx, name: &str, text: &str) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    let step = ctx.pick(5, 1);
    ctx.case(
        || name.to_string(),
        |st| {
            let (g, _) = corpus::read(text);
            let l = Lr::new(&g);
            let r = l.resolve();
            let ws = corpus_texts(&g, &l, step);
            st.add("grammars_enumerated", 1);
            st.add("clashes_decided", r.clashes as u64);
            for which in BOTH {
                let h = declared(&g, Some(r.sr), Some(r.rr));
                let gen = make(&h, which, Opts::default(), &dir, st)?;
                compare_all(&g, &l, &gen, &ws, &first_declared, r.clashes == 0, st)?;
            }
            st.sample(|| format!("{name}: {} states, {} texts", l.states.len(), ws.len()));
            Ok(())
        },
    );
}

fn c12_wide(ctx: &mut Ctx) {
    for n in ctx.pick(FEW_SIZES, SIZES) {
        for k in 0..12 {
            let f = if ctx.mine() { recovery_family(*n, k) } else { None };
            let Some((name, g, ws)) = f else {
                ctx.skip_case();
                continue;
            };
            let dir = ctx.dir.clone();
            ctx.case(
                || name.clone(),
                |st| {
                    let l = Lr::new(&g);
                    st.add("grammars_enumerated", 1);
                    st.add("grammars_with_recovery", 1);
                    for which in BOTH {
                        let gen = make(&g, which, IGN, &dir, st)?;
                        compare_all(&g, &l, &gen, &ws, &first_declared, true, st)?;
                    }
                    Ok(())
                },
            );
        }
    }
}

pub fn c12(ctx: &mut Ctx) {
    c12_wide(ctx);
    for (name, text) in CORPUS {
        if text.contains("%error") {
            corpus_case(ctx, name, text);
        }
    }
    for s in RECOVERY {
        let g = parse_grammar(s);
        let n = g.toks.len();
        let k = match n {
            0 | 1 => 7,
            2 => 6,
            3 => 5,
            _ => 4,
        } + ctx.pick(1, 2);
        c12_case(ctx, &g, k, true);
    }
    // one non terminal
    let mut sy = syms(2, 1);
    sy.push(Sym::Err);
    let rh = rhss(&sy, 0, 3);
    let k = ctx.pick(5, 6);
    for s in alts(rh.len(), 1, 2) {
        let gs = [s.iter().map(|i| rh[*i].clone()).collect::<Vec<_>>()];
        if !gs[0].iter().flatten().any(|x| *x == Sym::Err) || !canonical(&gs, 2) {
            continue;
        }
        if !ctx.mine() {
            ctx.skip_case();
            continue;
        }
        c12_case(ctx, &from_groups(2, &gs), k, true);
    }
    // two non terminals
    let mut sy = syms(2, 2);
    sy.push(Sym::Err);
    let rh = rhss(&sy, 0, 2);
    let nerr = |r: &Vec<Sym>| r.iter().filter(|x| **x == Sym::Err).count();
    let rh: Vec<Vec<Sym>> = rh.into_iter().filter(|r| nerr(r) <= 1).collect();
    for s in alts(rh.len(), 1, 2) {
        let sg: Vec<Vec<Sym>> = s.iter().map(|i| rh[*i].clone()).collect();
        if !sg.iter().flatten().any(|x| *x == Sym::N(1)) {
            continue;
        }
        for a in alts(rh.len(), 1, 2) {
            let ag: Vec<Vec<Sym>> = a.iter().map(|i| rh[*i].clone()).collect();
            let e: usize = sg.iter().chain(&ag).map(nerr).sum();
            if e == 0 || e > 2 || (!ctx.thorough() && s.len() + a.len() > 3) {
                continue;
            }
            let gs = [sg.clone(), ag];
            if !canonical(&gs, 2) {
                continue;
            }
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            c12_case(ctx, &from_groups(2, &gs), ctx.pick(4, 4), ctx.thorough());
        }
    }
}
