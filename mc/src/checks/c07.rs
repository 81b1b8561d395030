use crate::cfg::{Cfg, Lang};
use crate::checks::common::*;
use crate::ctx::Ctx;
use crate::enumg::*;
use crate::gen::{Opts, Which};
use crate::spaces::*;
use crate::util::*;
use std::path::Path;

fn one(
    g: &Cfg,
    which: Which,
    words: &[Vec<u16>],
    member: &dyn Fn(usize, &[u16]) -> bool,
    dir: &Path,
    st: &mut Stats,
) -> CheckResult {
    let p = match build(g, which, Opts::default(), dir)? {
        Ok(p) => p,
        Err(r) => {
            return Err(Violation::new(
                format!("{}: conflict free grammar refused: {r:?}", which.name()),
                g.spec(),
                format!("{} {}", which.name(), show(g)),
            ))
        }
    };
    st.add("parsers_generated", 1);
    st.add("states", p.t.action.len() as u64);
    for (i, w) in words.iter().enumerate() {
        let text = text_of(g, w);
        let want = member(i, w);
        let fail = |how: String| {
            Err(Violation::new(
                format!("{}: text {text:?} of {}: {how}", which.name(), show(g)),
                g.spec(),
                format!("{} {} {text:?}", which.name(), show(g)),
            ))
        };
        match p.parse(&text, "t") {
            Ok(r) => {
                st.add("transitions", r.steps);
                if r.result.is_ok() != want {
                    return fail(format!(
                        "accepted: {}, in the language: {want}",
                        r.result.is_ok()
                    ));
                }
            }
            Err(m) => return fail(m),
        }
        st.add("traces_validated_against_impl", 1);
        if want {
            st.add("sentences_in_language", 1);
        }
    }
    st.sample(|| {
        format!(
            "{}: {} -- {} texts, e.g. {:?}",
            which.name(),
            show(g),
            words.len(),
            text_of(g, &words[words.len() / 2])
        )
    });
    Ok(())
}

fn grammar_case(ctx: &mut Ctx, g: &Cfg, lang: &Lang) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || show(g),
        |st| {
            if !clean(g, st) {
                return Ok(());
            }
            st.add("grammars_conflict_free", 1);
            let ls = lang.languages(g);
            let l = &ls[g.prods[0].lhs as usize];
            for which in [Which::Plain, Which::Aug] {
                one(g, which, &lang.words, &|i, _| Lang::has(l, i), &dir, st)?;
            }
            Ok(())
        },
    );
}

fn sized(ctx: &mut Ctx, max: usize, limit: usize) {
    for n in 1..=max {
        for k in 0..7 {
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            let (name, g) = families(n).swap_remove(k);
            sized_case(ctx, &name, &g, limit, limit / 4, true);
        }
    }
}

fn sized_case(ctx: &mut Ctx, name: &str, g: &Cfg, limit: usize, edited: usize, all: bool) {
    let dir = ctx.dir.clone();
    ctx.case(
        || name.to_string(),
        |st| {
            if !clean(g, st) {
                return Ok(());
            }
            st.add("grammars_conflict_free", 1);
            let mut words: std::collections::BTreeSet<Vec<u16>> = sentences(g, limit).into_iter().collect();
            let c = covering(g);
            let n = c.len();
            words.extend(c.into_iter().enumerate().filter(|(i, _)| all || near(*i, n)).map(|x| x.1));
            let nt = g.toks.len();
            // every single edit of them
            let bases: Vec<Vec<u16>> = words.iter().cloned().collect();
            let step = bases.len().div_ceil(edited.max(1)).max(1);
            for w in bases.iter().step_by(step) {
                let at: Vec<usize> = if w.len() <= 12 { (0..w.len()).collect() } else { vec![0, 1, 2, w.len() / 2, w.len() - 2, w.len() - 1] };
                for i in at {
                    let mut v = w.clone();
                    v.remove(i);
                    words.insert(v);
                    for d in [1, nt - 1] {
                        let mut v = w.clone();
                        v[i] = ((v[i] as usize + d) % nt) as u16;
                        words.insert(v);
                    }
                    let mut v = w.clone();
                    v.insert(i, w[i]);
                    words.insert(v);
                }
            }
            words.insert(vec![]);
            let words: Vec<Vec<u16>> = words.into_iter().collect();
            let member: Vec<bool> = words.iter().map(|w| derives(g, w)).collect();
            for which in [Which::Plain, Which::Aug] {
                one(g, which, &words, &|i, _| member[i], &dir, st)?;
            }
            Ok(())
        },
    );
}

pub fn run(ctx: &mut Ctx) {
    let l2 = Lang::new(2, ctx.pick(5, 8));
    let l3 = Lang::new(3, ctx.pick(4, 6));
    one_level(ctx, ctx.pick(2, 3), &mut |c, g| grammar_case(c, g, &l2));
    if ctx.thorough() {
        two_level(ctx, 3, 2, false, &mut |c, g| grammar_case(c, g, &l2));
        two_level(ctx, 2, 3, true, &mut |c, g| grammar_case(c, g, &l2));
        merging(ctx, 2, &mut |c, g| grammar_case(c, g, &l3));
    } else {
        two_level(ctx, 2, 2, true, &mut |c, g| grammar_case(c, g, &l2));
        merging(ctx, 1, &mut |c, g| grammar_case(c, g, &l3));
    }
    let mut ls = Langs::default();
    naming(ctx, &mut |c, g| {
        let n = g.toks.len();
        let k = match n {
            1..=2 => 7,
            3 => 6,
            4 => 5,
            _ => 4,
        };
        let k = if c.thorough() { k } else { k - 1 };
        grammar_case(c, g, ls.get(n, k))
    });
    sized(ctx, ctx.pick(12, 40), ctx.pick(60, 300));
    let (lim, ed) = ctx.pick((20, 5), (100, 40));
    let all = ctx.thorough();
    wide(ctx, ctx.pick(FEW_SIZES, SIZES), &mut |c, name, g| {
        let few = !all && g.prods.len() > 200;
        sized_case(c, name, g, if few { 4 } else { lim }, if few { 1 } else { ed }, all)
    });
}
