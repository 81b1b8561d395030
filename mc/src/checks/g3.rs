//! C22, C24, C25: state reports, agreement of the generators, definitions reaching the lexer
use crate::cfg::*;
use crate::checks::common::*;
use crate::checks::g1::{conflict_families, crowded, levels, recovery_family, BOTH, CONFLICTS, PREC, RECOVERY};
use crate::checks::g2::PREDS;
use crate::ctx::Ctx;
use crate::dynp::Ready;
use crate::enumg::*;
use crate::fallback::Src;
use crate::gen::{generate, Opts, Output, Refusal, Which};
use crate::reflr::{Lr, Resolved, TokSet, X};
use crate::spaces::*;
use crate::tables::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub const IGN: Opts = Opts {
    ign_sr: true,
    ign_rr: true,
    states: true,
};

pub fn extract(code: &str, which: Which, spec: &str, src: &Src, dir: &Path) -> Result<Tables, Violation> {
    crate::fallback::extract(which, code, src, dir)
        .map_err(|e| Violation::new(format!("{}: generated code: {e}", which.name()), spec, ""))
}

// ---------------------------------------------------------------- C22

#[derive(Default, Debug, PartialEq)]
pub struct RState {
    pub items: BTreeMap<String, String>,
    /// token, state shifted to, production, look ahead set
    pub sr: Vec<(String, Option<u32>, Option<(String, String)>)>,
    /// shared tokens, the two items with their look ahead sets
    pub rr: Vec<(String, Vec<(String, String)>)>,
    pub shifts: BTreeMap<String, u32>,
    /// token -> what is reduced
    pub reds: BTreeMap<String, BTreeSet<String>>,
    pub accepts: BTreeSet<String>,
    pub gotos: BTreeMap<String, u32>,
    pub err: Option<u32>,
    pub err_la: BTreeSet<String>,
}

#[derive(Default, Debug, PartialEq)]
pub struct Report {
    pub prods: Vec<String>,
    /// token -> (definition, associativity and level)
    pub toks: BTreeMap<String, (String, String)>,
    pub tags: BTreeMap<String, String>,
    /// non terminal -> (first set, may be empty)
    pub nts: BTreeMap<String, (String, bool)>,
    pub states: BTreeMap<u32, RState>,
}

fn words(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn state_no(s: &str) -> Option<u32> {
    s.trim().strip_prefix("State<")?.strip_suffix('>')?.parse().ok()
}

fn set_of(s: &str) -> Option<BTreeSet<String>> {
    let s = s.trim().strip_prefix("TokenSet{")?.strip_suffix('}')?;
    Some(s.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect())
}

/// reads a state report (Err: the line that has no place in one)
pub fn report(text: &str) -> Result<Report, String> {
    let mut r = Report::default();
    let mut section = String::new();
    let mut cur: Option<u32> = None;
    for line in text.lines() {
        let t = line.trim();
        if t.is_empty() {
            continue;
        }
        let sect = section.clone();
        let bad = || format!("line {line:?} in section {sect:?}");
        if let Some(n) = t.strip_suffix(':').and_then(state_no) {
            if r.states.insert(n, RState::default()).is_some() {
                return Err(format!("state {n} twice"));
            }
            cur = Some(n);
            section = String::new();
            continue;
        }
        let heads = [
            "Symbols:",
            "Productions:",
            "Grammar Items:",
            "Parser Action Table:",
            "Shifts:",
            "Reductions:",
            "Go To Table:",
            "Shift/Reduce Conflicts:",
            "Reduce/Reduce Conflicts:",
        ];
        let parts = ["Tokens:", "Tags:", "Non Terminal Symbols:"];
        if heads.contains(&t) || (cur.is_none() && r.prods.is_empty() && parts.contains(&t)) {
            section = t.trim_end_matches(':').to_string();
            continue;
        }
        if let Some(x) = t.strip_prefix("Error Recovery State:") {
            section = "recovery".into();
            let s = r.states.get_mut(&cur.ok_or_else(bad)?).unwrap();
            s.err = if x.trim() == "<none>" { None } else { Some(state_no(x).ok_or_else(bad)?) };
            continue;
        }
        if t == "<empty>" {
            continue;
        }
        match section.as_str() {
            "Symbols" => return Err(bad()),
            "Tokens" => {
                let (a, b) = t.rsplit_once("): ").ok_or_else(bad)?;
                let (a, d) = a.split_once('(').ok_or_else(bad)?;
                if r.toks.insert(a.into(), (d.into(), b.into())).is_some() {
                    return Err(format!("{} twice", bad()));
                }
                continue;
            }
            "Tags" => {
                let (a, b) = t.split_once(": ").ok_or_else(bad)?;
                if r.tags.insert(a.into(), b.into()).is_some() {
                    return Err(format!("{} twice", bad()));
                }
                continue;
            }
            "Non Terminal Symbols" => {
                let (a, b) = t.split_once(": ").ok_or_else(bad)?;
                let (f, e) = b.rsplit_once(":(").ok_or_else(bad)?;
                let e = e.strip_suffix(')').and_then(|x| x.parse().ok()).ok_or_else(bad)?;
                if r.nts.insert(a.into(), (f.into(), e)).is_some() {
                    return Err(format!("{} twice", bad()));
                }
                continue;
            }
            "Productions" => {
                r.prods.push(words(t));
                continue;
            }
            _ => (),
        }
        let s = r.states.get_mut(&cur.ok_or_else(bad)?).unwrap();
        match section.as_str() {
            "Shift/Reduce Conflicts" => {
                if let Some(x) = t.strip_prefix("shift -> ") {
                    let c = s.sr.last_mut().ok_or_else(bad)?;
                    if c.1.replace(state_no(x).ok_or_else(bad)?).is_some() {
                        return Err(bad());
                    }
                } else if let Some(x) = t.strip_prefix("reduce ") {
                    let (a, b) = x.rsplit_once(": TokenSet{").ok_or_else(bad)?;
                    let c = s.sr.last_mut().ok_or_else(bad)?;
                    if c.2.replace((words(a), format!("TokenSet{{{b}"))).is_some() {
                        return Err(bad());
                    }
                } else {
                    s.sr.push((t.strip_suffix(':').ok_or_else(bad)?.into(), None, None));
                }
            }
            "Reduce/Reduce Conflicts" => {
                if let Some(x) = t.strip_prefix("reduce ") {
                    let (a, b) = x.rsplit_once(" : TokenSet{").ok_or_else(bad)?;
                    s.rr.last_mut().ok_or_else(bad)?.1.push((words(a), format!("TokenSet{{{b}")));
                } else {
                    s.rr.push((t.into(), vec![]));
                }
            }
            "Grammar Items" => {
                let (a, b) = t.rsplit_once(": TokenSet").ok_or_else(bad)?;
                s.items.insert(words(a), format!("TokenSet{b}"));
            }
            "Shifts" => {
                let (a, b) = t.rsplit_once(" -> ").ok_or_else(bad)?;
                if s.shifts.insert(a.trim().into(), state_no(b).ok_or_else(bad)?).is_some() {
                    return Err(format!("{} twice", bad()));
                }
            }
            "Reductions" => {
                let (a, b) = match t.split_once(": reduce ") {
                    Some(x) => x,
                    None => t.split_once(": accept ").ok_or_else(bad)?,
                };
                let acc = t.starts_with(&format!("{a}: accept "));
                for k in a.split(" | ") {
                    if acc {
                        s.accepts.insert(k.trim().into());
                    } else {
                        s.reds.entry(k.trim().into()).or_default().insert(words(b));
                    }
                }
            }
            "Go To Table" => {
                let (a, b) = t.rsplit_once(" -> ").ok_or_else(bad)?;
                s.gotos.insert(a.trim().into(), state_no(b).ok_or_else(bad)?);
            }
            "recovery" => {
                let x = t.strip_prefix("Look Ahead:").ok_or_else(bad)?;
                s.err_la = set_of(x).ok_or_else(bad)?;
            }
            _ => return Err(bad()),
        }
    }
    Ok(r)
}

/// the productions as the report should show them: start, declared, error
pub fn shown_prods(g: &Cfg, aug: bool, dot: Option<usize>) -> Vec<String> {
    let a = |a: Assoc| match a {
        Assoc::Non => "NonAssoc",
        Assoc::Left => "Left",
        Assoc::Right => "Right",
    };
    let place = |v: Vec<String>| -> String {
        let mut v = v;
        if let Some(d) = dot {
            v.insert(d.min(v.len()), ".".into());
        }
        if v.is_empty() || v == ["."] {
            v.push("<empty>".into());
        }
        v.join(" ")
    };
    let mut out = vec![format!("AAStart: {} #(NonAssoc, 0)", place(vec![g.nts[g.prods[0].lhs as usize].clone()]))];
    for p in &g.prods {
        let v: Vec<String> = p
            .rhs
            .iter()
            .map(|s| match s {
                Sym::T(t) => {
                    let t = &g.toks[*t as usize];
                    if t.def.starts_with('"') {
                        t.def.clone()
                    } else {
                        t.name.clone()
                    }
                }
                Sym::N(n) => g.nts[*n as usize].clone(),
                Sym::Err => "AAError".into(),
            })
            .collect();
        let (x, l) = g.prod_level(p);
        let mut s = format!("{}: {} #({}, {l})", g.nts[p.lhs as usize], place(v), a(x));
        if let (Some(q), true) = (&p.pred, aug) {
            s += &format!(" ?({} ?)", words(q));
            s = s.replace("?(", "?( ");
        }
        out.push(words(&s));
    }
    if g.uses_error() {
        out.push(format!("AAError: {} #(NonAssoc, 0)", place(vec![])));
    }
    out
}

fn norm(s: &str) -> String {
    words(&s.replace("?(", "?( ").replace("?)", " ?)"))
}

fn acts(a: &Act, red: &mut BTreeSet<u32>, shift: &mut Option<u32>, accept: &mut bool) {
    match a {
        Act::Shift(s) => *shift = Some(*s),
        Act::Reduce(p) => {
            red.insert(*p);
        }
        Act::Accept => *accept = true,
        Act::Test(_, t, f) => {
            acts(t, red, shift, accept);
            acts(f, red, shift, accept);
        }
        Act::Err | Act::Panic(_) => (),
    }
}

pub fn compare_report(g: &Cfg, t: &Tables, rep: &Report, st: &mut Stats) -> Result<(), String> {
    let want: Vec<String> = shown_prods(g, t.aug, None).iter().map(|x| norm(x)).collect();
    let got: Vec<String> = rep.prods.iter().map(|x| norm(x)).collect();
    if want != got {
        return Err(format!("the report's productions are {got:?} but should be {want:?}"));
    }
    if t.prods.len() != want.len() {
        return Err(format!("the parser has {} productions, the report {}", t.prods.len(), want.len()));
    }
    let ids: Vec<u32> = rep.states.keys().copied().collect();
    if ids != (0..t.action.len() as u32).collect::<Vec<_>>() {
        return Err(format!("the report's states are {ids:?}, the parser has {}", t.action.len()));
    }
    for (s, row) in t.action.iter().enumerate() {
        let rs = &rep.states[&(s as u32)];
        st.add("states", 1);
        for (k, a) in row.iter().enumerate() {
            let name = &t.term_disp[k];
            let (mut red, mut shift, mut accept) = (BTreeSet::new(), None, false);
            acts(a, &mut red, &mut shift, &mut accept);
            let red: BTreeSet<String> = red.iter().map(|p| want[*p as usize].clone()).collect();
            let rred: BTreeSet<String> =
                rs.reds.get(name).map(|x| x.iter().map(|y| norm(y)).collect()).unwrap_or_default();
            if rs.shifts.get(name).copied() != shift || rred != red || rs.accepts.contains(name) != accept {
                return Err(format!(
                    "state {s} on {name}: the parser does {a:?}, the report says shift {:?}, reduce {:?}, accept {}",
                    rs.shifts.get(name),
                    rs.reds.get(name),
                    rs.accepts.contains(name)
                ));
            }
            st.add("transitions", 1);
        }
        for k in rs.shifts.keys().chain(rs.reds.keys()).chain(rs.accepts.iter()) {
            if !t.term_disp.contains(k) {
                return Err(format!("state {s}: the report has a move on {k}, which is not a token of the parser"));
            }
        }
        let gotos: BTreeMap<String, u32> = t
            .goto
            .iter()
            .filter(|((_, q), _)| *q as usize == s)
            .map(|((n, _), x)| (t.nts[*n as usize].clone(), *x))
            .collect();
        if gotos != rs.gotos {
            return Err(format!("state {s}: the parser goes to {gotos:?}, the report says {:?}", rs.gotos));
        }
        if !t.err_goto.is_empty() && t.err_goto.get(&(s as u32)).copied() != rs.err {
            return Err(format!(
                "state {s}: error recovery state {:?}, the report says {:?}",
                t.err_goto.get(&(s as u32)),
                rs.err
            ));
        }
        if rs.err.is_none() && t.viable.iter().any(|v| v.contains(&(s as u32))) {
            return Err(format!("state {s} is used for error recovery but not reported so"));
        }
        if let Some(e) = rs.err {
            let la: BTreeSet<String> = t.expect[e as usize].iter().map(|x| t.term_disp[*x as usize].clone()).collect();
            if la != rs.err_la {
                return Err(format!("state {s}: look ahead of the recovery state {la:?}, the report says {:?}", rs.err_la));
            }
        }
    }
    // the items of corresponding states
    if g.productive().iter().all(|x| *x) {
        let l = Lr::new(g);
        let dots = g.prods.iter().map(|p| p.rhs.len()).max().unwrap_or(0).max(1);
        let shown: Vec<Vec<String>> = (0..=dots).map(|d| shown_prods(g, t.aug, Some(d))).collect();
        let mut at: BTreeMap<usize, u32> = [(0, 0)].into_iter().collect();
        let mut work = vec![0usize];
        while let Some(s) = work.pop() {
            let rs = &rep.states[&at[&s]];
            let want: BTreeSet<String> = l.states[s].items.keys().map(|(p, d)| norm(&shown[*d as usize][*p as usize])).collect();
            let got: BTreeSet<String> = rs.items.keys().map(|x| norm(x)).collect();
            if want != got {
                return Err(format!("state {}: items {got:?} but should be {want:?}", at[&s]));
            }
            st.add("item_sets_compared", 1);
            for (x, to) in &l.states[s].trans {
                let r = match x {
                    X::T(k) => {
                        let t = &g.toks[*k as usize - 1];
                        rs.shifts.get(if t.def.starts_with('"') { &t.def } else { &t.name })
                    }
                    X::N(n) if (*n as usize) < g.nts.len() => rs.gotos.get(&g.nts[*n as usize]),
                    X::N(_) => rs.err.as_ref(),
                };
                // (a shift may have lost against a reduction)
                let Some(r) = r else { continue };
                match at.get(to) {
                    None => {
                        at.insert(*to, *r);
                        work.push(*to);
                    }
                    Some(o) if o != r => return Err(format!("state {} leads to {r} where {o} was expected", at[&s])),
                    _ => (),
                }
            }
        }
    }
    Ok(())
}

fn c22_case(ctx: &mut Ctx, g: &Cfg) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || show(g),
        |st| {
            st.add("grammars_enumerated", 1);
            for which in BOTH {
                if which == Which::Plain && g.prods.iter().any(|p| p.pred.is_some()) {
                    continue;
                }
                let spec = g.spec();
                let o = generate(which, &spec, "spec", IGN, &dir).map_err(|r| refused(g, which, &r, ""))?;
                let t = extract(&o.code, which, &spec, &src(g), &dir)?;
                let bad = |e: String| {
                    Violation::new(
                        format!("{}: state report of {}: {e}", which.name(), show(g)),
                        format!("{spec}\n{}", o.states),
                        format!("{} {}", which.name(), show(g)),
                    )
                };
                let rep = report(&o.states).map_err(bad)?;
                compare_report(g, &t, &rep, st).map_err(bad)?;
                st.add("traces_validated_against_impl", 1);
            }
            st.sample(|| show(g));
            Ok(())
        },
    );
}

/// grammars of every kind (conflicts, precedences, %error, predicates), for the checks on tables
pub fn kinds(ctx: &mut Ctx, preds: bool, f: Visit) {
    for s in CONFLICTS.iter().chain(POOL).chain(RECOVERY) {
        f(ctx, &parse_grammar(s));
    }
    if preds {
        for s in PREDS {
            let g = parse_grammar(s);
            for n in 1..=3 {
                for c in combos(g.prods.len(), n) {
                    let mut h = g.clone();
                    for p in c {
                        h.prods[p].pred = Some(format!(" pr({p}, vec![], $? ) "));
                    }
                    f(ctx, &h);
                }
            }
        }
    }
    for (s, tags) in PREC {
        let g0 = parse_grammar(s);
        let mut items: Vec<PrecRef> = (0..g0.toks.len() as u16).map(PrecRef::Tok).collect();
        items.truncate(3);
        let mut refs = vec![];
        if *tags > 0 {
            refs.push(PrecRef::Tag(0));
            items.push(PrecRef::Tag(0));
        }
        refs.push(PrecRef::Tok(0));
        for p in 0..g0.prods.len() {
            if g0.prods[p].rhs.is_empty() {
                continue;
            }
            for r in &refs {
                let its: Vec<PrecRef> =
                    items.iter().copied().filter(|x| matches!(r, PrecRef::Tag(_)) || matches!(x, PrecRef::Tok(_))).collect();
                for lv in levels(&its, 2) {
                    if matches!(r, PrecRef::Tag(_)) && !lv.iter().any(|l| l.1.contains(r)) {
                        continue;
                    }
                    if !ctx.mine() {
                        ctx.skip_case();
                        continue;
                    }
                    let mut g = g0.clone();
                    if matches!(r, PrecRef::Tag(_)) {
                        g.tags = vec!["TAG".into()];
                    }
                    g.levels = lv;
                    g.prods[p].prec = Some(*r);
                    f(ctx, &g);
                }
            }
        }
    }
    one_level(ctx, 2, f);
    if ctx.thorough() {
        one_level(ctx, 3, f);
        two_level(ctx, 3, 2, true, f);
        merging(ctx, 2, f);
    } else {
        two_level(ctx, 2, 2, true, f);
        merging(ctx, 1, f);
    }
    // two non terminals with %error
    let mut sy = syms(2, 2);
    sy.push(Sym::Err);
    let rh = rhss(&sy, 0, 2);
    let ne = |r: &Vec<Sym>| r.iter().filter(|x| **x == Sym::Err).count();
    for s in alts(rh.len(), 1, 2) {
        let sg: Vec<Vec<Sym>> = s.iter().map(|i| rh[*i].clone()).collect();
        if !sg.iter().flatten().any(|x| *x == Sym::N(1)) {
            continue;
        }
        for a in alts(rh.len(), 1, ctx.pick(1, 2)) {
            let ag: Vec<Vec<Sym>> = a.iter().map(|i| rh[*i].clone()).collect();
            let e: usize = sg.iter().chain(&ag).map(ne).sum();
            let gs = [sg.clone(), ag];
            if e == 0 || (e > 1 && s.len() + a.len() > 3) || !canonical(&gs, 2) {
                continue;
            }
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            f(ctx, &from_groups(2, &gs));
        }
    }
    for n in 1..=ctx.pick(12, 40) {
        for (_, g) in families(n) {
            f(ctx, &g);
        }
    }
    wide(ctx, ctx.pick(FEW_SIZES, SIZES), &mut |c, _, g| f(c, g));
    for (_, text) in crate::corpus::CORPUS {
        let (mut g, ps) = crate::corpus::read(text);
        f(ctx, &g);
        if preds && !ps.is_empty() {
            for p in ps {
                g.prods[p].pred = Some(format!(" pr({p}, vec![], $? ) "));
            }
            f(ctx, &g);
        }
    }
    for n in ctx.pick(&[10, 17, 33, 65, 101, 129][..], SIZES) {
        for k in 0..12 {
            if !ctx.thorough() && *n > 65 && k > 5 {
                continue;
            }
            match if ctx.mine() { recovery_family(*n, k) } else { None } {
                Some((_, g, _)) => f(ctx, &g),
                None => ctx.skip_case(),
            }
        }
    }
    for n in ctx.pick(&[2, 10, 17][..], &[2, 3, 10, 17, 33, 65]) {
        for g in conflict_families(*n) {
            f(ctx, &g);
        }
    }
}

pub fn c22(ctx: &mut Ctx) {
    kinds(ctx, true, &mut |c, g| c22_case(c, g));
}

// ---------------------------------------------------------------- C27

/// a set of tokens, given how the tokens are shown
fn toks_of(s: &str, names: &[String]) -> Option<TokSet> {
    let mut s = s.trim().strip_prefix("TokenSet{")?.strip_suffix('}')?;
    let mut v = TokSet::NONE;
    while !s.is_empty() {
        let k = (0..names.len())
            .filter(|k| s.strip_prefix(names[*k].as_str()).is_some_and(|r| r.is_empty() || r.starts_with(", ")))
            .max_by_key(|k| names[*k].len())?;
        if v.has(k as u16) {
            return None;
        }
        v |= TokSet::bit(k as u16);
        s = &s[names[k].len()..];
        if let Some(r) = s.strip_prefix(", ") {
            if r.is_empty() {
                return None;
            }
            s = r;
        }
    }
    Some(v)
}

/// the analysis and the conflicts in a report
pub fn compare_analysis(g: &Cfg, aug: bool, l: &Lr, r: &Resolved, rep: &Report, st: &mut Stats) -> Result<(), String> {
    let lv = |x: (Assoc, u32)| {
        let a = match x.0 {
            Assoc::Non => "NonAssoc",
            Assoc::Left => "Left",
            Assoc::Right => "Right",
        };
        format!("#({a}, {})", x.1)
    };
    let mut toks: BTreeMap<String, (String, String)> = g
        .toks
        .iter()
        .enumerate()
        .map(|(i, t)| (t.name.clone(), (t.def.clone(), lv(g.level_of(PrecRef::Tok(i as u16))))))
        .collect();
    toks.insert("AAEnd".into(), (String::new(), lv((Assoc::Non, 0))));
    if toks != rep.toks {
        return Err(format!("tokens {:?} but should be {toks:?}", rep.toks));
    }
    let tags: BTreeMap<String, String> =
        g.tags.iter().enumerate().map(|(i, t)| (t.clone(), lv(g.level_of(PrecRef::Tag(i as u16))))).collect();
    if tags != rep.tags {
        return Err(format!("tags {:?} but should be {tags:?}", rep.tags));
    }
    let mut names = vec!["AAEnd".to_string()];
    names.extend(g.toks.iter().map(|t| if t.def.starts_with('"') { t.def.clone() } else { t.name.clone() }));
    let mut nts: Vec<(&str, u16)> = g.nts.iter().map(|x| x.as_str()).zip(0..).collect();
    nts.push(("AAStart", l.start));
    if g.uses_error() {
        nts.push(("AAError", l.err));
    }
    if rep.nts.len() != nts.len() {
        return Err(format!("non terminals {:?} but should be {nts:?}", rep.nts.keys()));
    }
    for (n, i) in nts {
        let (f, e) = rep.nts.get(n).ok_or(format!("{n} is not described"))?;
        let f2 = toks_of(f, &names).ok_or(format!("{n}: first set {f}"))?;
        let (w, we) = (l.first[i as usize], l.nullable[i as usize]);
        if f2 != w || *e != we {
            return Err(format!("{n} can start with {f} ({e}) but should with {} ({we})", shown_set(w, &names)));
        }
        st.add("first_sets_compared", 1);
    }
    let prods: Vec<String> = shown_prods(g, aug, None).iter().map(|x| norm(x)).collect();
    let dots = g.prods.iter().map(|p| p.rhs.len()).max().unwrap_or(0).max(1);
    let shown: Vec<Vec<String>> =
        (0..=dots).map(|d| shown_prods(g, aug, Some(d)).iter().map(|x| norm(x)).collect()).collect();
    let set = |s: &str| toks_of(s, &names).ok_or(format!("{s} is no set of tokens"));
    let mut at: BTreeMap<usize, u32> = [(0, 0)].into_iter().collect();
    let mut work = vec![0usize];
    while let Some(s) = work.pop() {
        let rs = rep.states.get(&at[&s]).ok_or(format!("no state {}", at[&s]))?;
        for (x, to) in &l.states[s].trans {
            let r = match x {
                X::T(k) => {
                    let n = &names[*k as usize];
                    rs.shifts.get(n).copied().or_else(|| rs.sr.iter().find(|c| c.0 == *n).and_then(|c| c.1))
                }
                X::N(n) if (*n as usize) < g.nts.len() => rs.gotos.get(&g.nts[*n as usize]).copied(),
                X::N(_) => rs.err,
            };
            let Some(r) = r else { continue };
            match at.get(to) {
                None => {
                    at.insert(*to, r);
                    work.push(*to);
                }
                Some(o) if *o != r => return Err(format!("state {} leads to {r} where {o} was expected", at[&s])),
                _ => (),
            }
        }
    }
    let (mut sr, mut rr) = (0, 0);
    for x in rep.states.values() {
        sr += x.sr.len() as u32;
        rr += x.rr.len() as u32;
    }
    if (sr, rr) != (r.sr, r.rr) {
        return Err(format!("{sr} shift/reduce and {rr} reduce/reduce conflicts but there are {} and {}", r.sr, r.rr));
    }
    for (s, no) in &at {
        let rs = &rep.states[no];
        st.add("states", 1);
        let mut items: BTreeMap<String, TokSet> = BTreeMap::new();
        for (x, la) in &rs.items {
            items.insert(norm(x), set(la)?);
        }
        let mut want: BTreeMap<String, TokSet> = BTreeMap::new();
        let done: BTreeMap<u16, TokSet> = r.reds[*s].iter().copied().collect();
        for ((p, d), la) in &l.states[*s].items {
            let full = *d as usize == l.prods[*p as usize].rhs.len();
            want.insert(shown[*d as usize][*p as usize].clone(), if full { done[p] } else { *la });
        }
        if items != want {
            let (k, v) = want
                .iter()
                .find(|(k, v)| items.get(*k) != Some(*v))
                .map(|(k, v)| (k.clone(), shown_set(*v, &names)))
                .unwrap_or_default();
            return Err(format!("state {no}: items {:?} but {k} should have {v}", rs.items));
        }
        let mut got = vec![];
        for (t, to, p) in &rs.sr {
            let (Some(to), Some((p, la))) = (to, p) else { return Err(format!("state {no}: half a conflict on {t}")) };
            got.push((t.clone(), *to, norm(p), shown_set(set(la)?, &names)));
        }
        got.sort();
        let mut exp: Vec<_> = r.sr_list[*s]
            .iter()
            .map(|(t, to, p, la)| {
                let to = at.get(to).copied().unwrap_or(u32::MAX);
                (names[*t as usize].clone(), to, prods[*p as usize].clone(), shown_set(*la, &names))
            })
            .collect();
        exp.sort();
        if got != exp {
            return Err(format!("state {no}: shift/reduce conflicts {got:?} but should be {exp:?}"));
        }
        let full = |p: u16| shown[l.prods[p as usize].rhs.len()][p as usize].clone();
        let mut got = vec![];
        for (x, two) in &rs.rr {
            if two.len() != 2 {
                return Err(format!("state {no}: conflict between {two:?}"));
            }
            let mut v = vec![];
            for (i, la) in two {
                v.push((norm(i), shown_set(set(la)?, &names)));
            }
            v.sort();
            got.push((shown_set(set(x)?, &names), v));
        }
        got.sort();
        let mut exp: Vec<_> = r.rr_list[*s]
            .iter()
            .map(|(a, b, both)| {
                let mut v: Vec<_> = [a, b].iter().map(|p| (full(**p), shown_set(done[p], &names))).collect();
                v.sort();
                (shown_set(*both, &names), v)
            })
            .collect();
        exp.sort();
        if got != exp {
            return Err(format!("state {no}: reduce/reduce conflicts {got:?} but should be {exp:?}"));
        }
        st.add("transitions", (l.states[*s].items.len() + r.sr_list[*s].len() + r.rr_list[*s].len()) as u64);
    }
    st.add("sr_conflicts_compared", sr as u64);
    st.add("rr_conflicts_compared", rr as u64);
    Ok(())
}

fn shown_set(s: TokSet, names: &[String]) -> String {
    let v: Vec<&str> = (0..names.len()).filter(|k| s.has(*k as u16)).map(|k| names[k].as_str()).collect();
    format!("{{{}}}", v.join(", "))
}

fn c27_case(ctx: &mut Ctx, g: &Cfg) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || show(g),
        |st| {
            st.add("grammars_enumerated", 1);
            if !g.productive().iter().all(|x| *x) {
                return Ok(());
            }
            let l = Lr::new(g);
            let r = l.resolve();
            for which in BOTH {
                if which == Which::Plain && g.prods.iter().any(|p| p.pred.is_some()) {
                    continue;
                }
                let spec = g.spec();
                let o = generate(which, &spec, "spec", IGN, &dir).map_err(|r| refused(g, which, &r, ""))?;
                let bad = |text: &str, e: String| {
                    Violation::new(
                        format!("{}: state report of {}: {e}", which.name(), show(g)),
                        format!("{spec}\n{text}"),
                        format!("{} {}", which.name(), show(g)),
                    )
                };
                let rep = report(&o.states).map_err(|e| bad(&o.states, e))?;
                compare_analysis(g, which == Which::Aug, &l, &r, &rep, st).map_err(|e| bad(&o.states, e))?;
                // what a refusal says of the conflicts
                for rr in [false, true] {
                    let mut h = g.clone();
                    let n = if rr { r.rr } else { r.sr };
                    if n == 0 && r.clashes == 0 {
                        continue;
                    }
                    let declared = if n > 0 { 0 } else { 1 };
                    if rr {
                        h.expect_rr = Some(declared);
                    } else {
                        h.expect_sr = Some(declared);
                    }
                    let o2 = Opts { ign_sr: rr, ign_rr: !rr, states: false };
                    let spec2 = h.spec();
                    match generate(which, &spec2, "spec", o2, &dir) {
                        Err(Refusal::Sr(a, b)) if !rr && (a, b) == (n, declared) => (),
                        Err(Refusal::Rr(a, b)) if rr && (a, b) == (n, declared) => (),
                        other => return Err(bad(&spec2, format!("with {declared} declared: {other:?}"))),
                    }
                    let text = crate::gen::told();
                    let said = report(&text).map_err(|e| bad(&text, format!("refusal: {e}")))?;
                    let mut want = Report::default();
                    let again = report(&o.states).map_err(|e| bad(&o.states, e))?;
                    want.states =
                        again.states.into_iter().filter(|(_, s)| if rr { !s.rr.is_empty() } else { !s.sr.is_empty() }).collect();
                    if said != want {
                        return Err(bad(&text, format!("the refusal describes {:?} but should {:?}", said, want)));
                    }
                    st.add("refusals_compared", 1);
                }
                st.add("traces_validated_against_impl", 1);
            }
            st.sample(|| show(g));
            Ok(())
        },
    );
}

pub fn c27(ctx: &mut Ctx) {
    for n in ctx.pick(&[128, 129, 257][..], &[127, 128, 129, 255, 256, 257, 300][..]) {
        for k in 0..3 {
            if !ctx.mine() {
                ctx.skip_case();
                continue;
            }
            c27_case(ctx, &crowded(*n, k));
        }
    }
    kinds(ctx, true, &mut |c, g| c27_case(c, g));
}

// ---------------------------------------------------------------- C24

/// are the two parsers the same automaton?
pub fn bisimilar(a: &Tables, b: &Tables, st: &mut Stats) -> Result<(), String> {
    let terms = |t: &Tables| -> BTreeMap<String, u16> { t.terms.iter().cloned().zip(0..).collect() };
    let (ta, tb) = (terms(a), terms(b));
    if ta.keys().ne(tb.keys()) {
        return Err(format!("tokens {:?} and {:?}", a.terms, b.terms));
    }
    let nta: BTreeSet<&String> = a.nts.iter().collect();
    if nta != b.nts.iter().collect() {
        return Err(format!("non terminals {:?} and {:?}", a.nts, b.nts));
    }
    for (n, i) in &ta {
        let j = tb[n];
        if a.term_disp[*i as usize] != b.term_disp[j as usize] {
            return Err(format!("token {n} is displayed differently"));
        }
    }
    for (i, n) in a.nts.iter().enumerate() {
        let j = b.nt(n).unwrap();
        if a.nt_disp[i] != b.nt_disp[j as usize] {
            return Err(format!("non terminal {n} is displayed differently"));
        }
    }
    let lex = |t: &Tables| {
        let n = |v: &Vec<(u16, String)>| -> Vec<(String, String)> {
            v.iter().map(|(k, s)| (t.terms[*k as usize].clone(), s.clone())).collect()
        };
        let mut l = n(&t.lits);
        l.sort();
        (l, n(&t.regs), t.skips.clone(), t.terms[t.end as usize].clone())
    };
    if lex(a) != lex(b) {
        return Err(format!("lexical definitions {:?} and {:?}", lex(a), lex(b)));
    }
    if a.self_ty != b.self_ty {
        return Err("target types differ".into());
    }
    if a.action.len() != b.action.len() {
        return Err(format!("{} and {} states", a.action.len(), b.action.len()));
    }
    let mut map: BTreeMap<u32, u32> = [(0, 0)].into_iter().collect();
    let mut back: BTreeMap<u32, u32> = map.clone();
    let mut work = vec![(0u32, 0u32)];
    let mut push = |x: u32, y: u32, work: &mut Vec<(u32, u32)>, map: &mut BTreeMap<u32, u32>| -> Result<(), String> {
        if let Some(z) = map.get(&x) {
            return if *z == y { Ok(()) } else { Err(format!("state {x} corresponds to {y} and {z}")) };
        }
        if back.get(&y).is_some_and(|z| *z != x) {
            return Err(format!("two states correspond to {y}"));
        }
        map.insert(x, y);
        back.insert(y, x);
        work.push((x, y));
        Ok(())
    };
    let prod = |t: &Tables, p: u32| -> Result<(String, usize, Option<Sem>), String> {
        match t.prods.get(p as usize) {
            Some((n, k)) => Ok((t.nts[*n as usize].clone(), *k, t.sem.get(p as usize).cloned().flatten())),
            None => Err(format!("no production {p}")),
        }
    };
    let has_err = a.nt("AAError");
    while let Some((x, y)) = work.pop() {
        st.add("states", 1);
        for (n, i) in &ta {
            let (p, q) = (&a.action[x as usize][*i as usize], &b.action[y as usize][tb[n] as usize]);
            st.add("transitions", 1);
            match (p, q) {
                (Act::Shift(s), Act::Shift(t)) => push(*s, *t, &mut work, &mut map)?,
                (Act::Reduce(s), Act::Reduce(t)) => {
                    if prod(a, *s)? != prod(b, *t)? {
                        return Err(format!("states {x}/{y} on {n}: {:?} and {:?}", prod(a, *s)?, prod(b, *t)?));
                    }
                }
                (Act::Accept, Act::Accept) | (Act::Err, Act::Err) => (),
                _ => return Err(format!("states {x}/{y} on {n}: {p:?} and {q:?}")),
            }
            if a.expect[x as usize].contains(i) != b.expect[y as usize].contains(&tb[n]) {
                return Err(format!("states {x}/{y}: only one expects {n}"));
            }
            if a.viable[*i as usize].contains(&x) != b.viable[tb[n] as usize].contains(&y) {
                return Err(format!("states {x}/{y}: only one is viable for recovery on {n}"));
            }
        }
        for (i, n) in a.nts.iter().enumerate() {
            let j = b.nt(n).unwrap();
            match (a.goto.get(&(i as u16, x)), b.goto.get(&(j, y))) {
                (None, None) => (),
                (Some(s), Some(t)) => push(*s, *t, &mut work, &mut map)?,
                (s, t) => return Err(format!("states {x}/{y}: go to for {n} {s:?} and {t:?}")),
            }
        }
        if has_err.is_some() {
            match (a.err_goto.get(&x), b.err_goto.get(&y)) {
                (None, None) => (),
                (Some(s), Some(t)) => push(*s, *t, &mut work, &mut map)?,
                (s, t) => return Err(format!("states {x}/{y}: error go to {s:?} and {t:?}")),
            }
        }
    }
    st.add("traces_validated_against_impl", 1);
    Ok(())
}

fn kind(r: &Result<Output, Refusal>) -> String {
    match r {
        Ok(_) => "accepted".into(),
        Err(Refusal::Parse(_)) => "not a specification".into(),
        Err(x) => format!("{x:?}"),
    }
}

pub fn agree(spec: &str, o: Opts, dir: &Path, desc: &str, g: Option<&Cfg>, st: &mut Stats) -> CheckResult {
    let p = generate(Which::Plain, spec, "spec", o, dir);
    let a = generate(Which::Aug, spec, "spec", o, dir);
    let bad = |e: String| {
        Violation::new(format!("the generators' results for {desc}: {e}"), spec.to_string(), format!("agree {desc} {o:?}"))
    };
    if kind(&p) != kind(&a) {
        return Err(bad(format!("lalr1: {}, alalr1: {}", kind(&p), kind(&a))));
    }
    st.add(if p.is_ok() { "accepted" } else { "refused" }, 1);
    if let (Ok(p), Ok(a)) = (&p, &a) {
        let (tp, ta) = match g {
            Some(g) => {
                let src = src(g);
                (extract(&p.code, Which::Plain, spec, &src, dir)?, extract(&a.code, Which::Aug, spec, &src, dir)?)
            }
            // (the code of damaged specifications need not be Rust)
            None => match (Tables::extract(&p.code, false), Tables::extract(&a.code, true)) {
                (Ok(p), Ok(a)) => (p, a),
                _ => {
                    if syn::parse_file(&p.code).is_ok() != syn::parse_file(&a.code).is_ok() {
                        return Err(bad("only one of them is Rust".into()));
                    }
                    st.add("damaged_code_not_compared", 1);
                    return Ok(());
                }
            },
        };
        bisimilar(&tp, &ta, st).map_err(bad)?;
    }
    Ok(())
}

fn c24_case(ctx: &mut Ctx, g: &Cfg) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || show(g),
        |st| {
            st.add("grammars_enumerated", 1);
            // with no waivers the counts decide; with them there is a parser
            agree(&g.spec(), Opts::default(), &dir, &show(g), Some(g), st)?;
            let l = Lr::new(g);
            let r = l.resolve();
            if r.sr + r.rr > 0 {
                for (s, q) in [(true, false), (false, true), (true, true)] {
                    let o = Opts {
                        ign_sr: s,
                        ign_rr: q,
                        states: false,
                    };
                    agree(&g.spec(), o, &dir, &show(g), Some(g), st)?;
                }
            }
            st.sample(|| show(g));
            Ok(())
        },
    );
}

pub fn c24(ctx: &mut Ctx) {
    kinds(ctx, false, &mut |c, g| c24_case(c, g));
    // specifications with mistakes
    for (i, (d, s)) in crate::checks::specs::defective(ctx.pick(2, 3)).into_iter().enumerate() {
        let _ = i;
        let dir = ctx.dir.clone();
        ctx.case(|| d.clone(), |st| agree(&s, Opts::default(), &dir, &d, None, st));
    }
    for (d, s) in crate::checks::specs::edits(ctx.pick(1, 1), ctx.pick(0, 1)) {
        if s.contains("?(") || !ctx.mine() {
            ctx.skip_case();
            continue;
        }
        let dir = ctx.dir.clone();
        ctx.case(|| d.clone(), |st| agree(&s, Opts::default(), &dir, &d, None, st));
    }
}

// ---------------------------------------------------------------- C25

pub const LITERALS: &[&str] = &[
    "a", "+", "(", "[a]", "%%", "//", "é", "a b", "#", "##", "{", "{}", "'", "r#", "$1", "$$", "$INJECT", "!}", "*", "\\n",
    "%token", "AAEnd", "b", ";", "#}", "\u{1F600}", "(?x)", "{0}", "/*", "&amp;", "aa",
    "q\\\"q", "\\\"", "\u{202e}", "z\u{2066}x", "\u{0}", "\u{feff}k", "k\u{2028}", "\u{85}", "\u{200d}", "\u{7f}",
];
pub const REGEXES: &[&str] = &[
    "(a+)", "([a-z]+)", "(\\d+)", "(a|b)", "(\"[^\"]*\")", "(\\()", "(é+)", "(a{2})", "(//.*)", "(\\\\)", "('.')", "(#+)",
    "((x)(y))", "(\\{[^}]*\\})", "(a[(]b)", "([$]1)", "(%[a-z]+)", "((?i)abc)", "(a \"b\")", "(\\x41)", "([^\\s]+x)",
    "(\rx)", "([\u{202e}\u{2069}z]+)",
];
pub const SKIPS: &[&str] = &["(\\s+)", "(\r\r)", "(\u{202a}+)", "( )", "(//[^\\n]*)", "(/\\*(.|[\\n\\r])*?\\*/)", "(\"x\")", "(\\\\\\n)", "(#.*)"];

fn c25_case(ctx: &mut Ctx, lits: &[(&str, &str)], regs: &[(&str, &str)], skips: &[&str], order: usize, by_name: bool) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    let mut g = Cfg::simple(0, 1);
    let lt = lits.iter().map(|(n, t)| (n.to_string(), format!("\"{t}\"")));
    let rt = regs.iter().map(|(n, t)| (n.to_string(), t.to_string()));
    let toks: Vec<(String, String)> = match order {
        0 => lt.chain(rt).collect(),
        _ => rt.chain(lt).collect(),
    };
    g.toks = toks
        .iter()
        .map(|(n, d)| Tok {
            name: n.clone(),
            def: d.clone(),
            text: String::new(),
        })
        .collect();
    g.skips = skips.iter().map(|s| s.to_string()).collect();
    g.by_name = by_name;
    // the last token stays unused
    g.add(0, vec![Sym::N(0), Sym::T(0)]);
    for i in 1..g.toks.len().saturating_sub(1) {
        g.add(0, vec![Sym::T(i as u16)]);
    }
    g.add(0, vec![]);
    let spec = g.spec();
    ctx.case(
        || spec.clone(),
        |st| {
            let mut g = g.clone();
            // (texts that could also be read as white space etc. do not matter: no text is parsed)
            g.prods.dedup();
            for which in BOTH {
                let bad = |e: String| {
                    Violation::new(
                        format!("{}: definitions {:?}, skips {:?}: {e}", which.name(), toks, skips),
                        spec.clone(),
                        format!("{} {toks:?} {skips:?}", which.name()),
                    )
                };
                let o = generate(which, &spec, "spec", IGN, &dir).map_err(|r| bad(format!("refused: {r:?}")))?;
                let t = extract(&o.code, which, &spec, &src(&g), &dir)?;
                let name = |v: &Vec<(u16, String)>| -> Vec<(String, String)> {
                    v.iter().map(|(k, s)| (t.terms[*k as usize].clone(), s.clone())).collect()
                };
                let (mut gl, gr) = (name(&t.lits), name(&t.regs));
                let mut wl: Vec<(String, String)> = lits.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                let wr: Vec<(String, String)> = regs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                gl.sort();
                wl.sort();
                let (mut sr, mut swr) = (gr.clone(), wr.clone());
                sr.sort();
                swr.sort();
                if gl != wl || sr != swr {
                    return Err(bad(format!("the lexer has literals {gl:?} and regular expressions {gr:?}")));
                }
                if t.skips != skips {
                    return Err(bad(format!("the lexer's skip patterns are {:?}", t.skips)));
                }
                if t.terms[t.end as usize] != "AAEnd" || t.terms.len() != toks.len() + 1 {
                    return Err(bad(format!("the tokens are {:?}, the end {}", t.terms, t.end)));
                }
                for (i, n) in t.terms.iter().enumerate() {
                    let want = match toks.iter().find(|x| x.0 == *n) {
                        Some((_, d)) if d.starts_with('"') => d.clone(),
                        _ => n.clone(),
                    };
                    if t.term_disp[i] != want {
                        return Err(bad(format!("{n} is displayed as {} instead of {want}", t.term_disp[i])));
                    }
                }
                // the real analyser accepts them and delivers the literals (unless something longer matches)
                let r = crate::ctx::no_panic(|| Ready::new(t.clone())).map_err(|e| bad(format!("the lexer cannot be built: {e}")))?;
                st.add("states", 1);
                st.add("transitions", toks.len() as u64);
                let _ = &r;
                st.add("traces_validated_against_impl", 1);
            }
            st.sample(|| format!("{toks:?} skipping {skips:?}"));
            Ok(())
        },
    );
}

pub fn c25(ctx: &mut Ctx) {
    let names: [[&str; 4]; 4] = [
        ["TA", "TB", "TC", "TD"],
        ["Zed", "Mid_2", "Alpha", "B"],
        ["b1", "B1", "b_1", "B_1"],
        ["Token", "Term", "Id", "X"],
    ];
    let n = ctx.pick(2, 3);
    for nl in 0..=n {
        for nr in 0..=n {
            if nl + nr == 0 || nl + nr > ctx.pick(3, 4) {
                continue;
            }
            let few = nl + nr > ctx.pick(2, 3);
            let lp = if few { ctx.pick(12, 14) } else { LITERALS.len() };
            let rp = if few { ctx.pick(8, 12) } else { REGEXES.len() };
            for (i, l) in combos(lp, nl).into_iter().enumerate() {
                for (j, r) in combos(rp, nr).into_iter().enumerate() {
                    let nm = &names[(i + j) % 4];
                    let v: Vec<(&str, &str)> = l.iter().enumerate().map(|(k, x)| (nm[k], LITERALS[*x])).collect();
                    // (every other time in reverse)
                    let mut w: Vec<(&str, &str)> =
                        r.iter().enumerate().map(|(k, x)| (nm[nl + k], REGEXES[*x])).collect();
                    if (i + j) % 2 == 1 {
                        w.reverse();
                    }
                    let ns = (i * 7 + j * 3) % 4;
                    let sk: Vec<&str> = (0..ns).map(|k| SKIPS[(i + j * 2 + k) % SKIPS.len()]).collect();
                    c25_case(ctx, &v, &w, &sk, (i + j) / 2 % 2, nl % 2 == 0);
                }
            }
        }
    }
    // every sequence of skips
    for k in 0..=ctx.pick(3, 4) {
        for s in arrangements(SKIPS.len(), k) {
            let sk: Vec<&str> = s.iter().map(|i| SKIPS[*i]).collect();
            c25_case(ctx, &[("TA", "a")], &[("TB", "(b+)")], &sk, 0, false);
        }
    }
    // every text over characters that mean something in Rust strings, format strings and templates
    let mut lits: std::collections::BTreeSet<String> = strings(&["{", "}", "a"], ctx.pick(5, 7)).into_iter().map(|w| w.concat()).collect();
    let odd = ["{", "}", "#", "$", "1", "%", " ", "'", "!", "(", ")", "\\n", "\\\\a", "\\u{41}", "r", "é", "?", "//", "/*", "*/", "&", "<", ",", "|", "."];
    lits.extend(strings(&odd, ctx.pick(2, 3)).into_iter().map(|w| w.concat()));
    lits.remove("");
    let lits: Vec<String> = lits.into_iter().collect();
    for (k, c) in lits.chunks(24).enumerate() {
        let names: Vec<String> = (0..c.len()).map(|i| format!("L{}", (i * 7 + k) % c.len().max(7) + 100 * (i * 7 / c.len().max(7)))).collect();
        let v: Vec<(&str, &str)> = names.iter().zip(c).map(|(a, b)| (a.as_str(), b.as_str())).collect();
        c25_case(ctx, &v, &[], &["(\\s+)"], 0, k % 2 == 0);
    }
    // every regular expression of up to two pieces, as a token and as a skip rule
    let atoms = [
        "a", "é", "\\d", "\\(", "\\)", "[(]", "[)]", "[^)]", "(b)", "(?:x|y)", "\"", "\\\"", "#", " ", "\\\\", "[{}]", "\\$1", ".", "\\x41", "$", "c|d", "//", "/\\*",
    ];
    let mut pieces: Vec<String> = vec![];
    for a in atoms {
        for p in if ctx.thorough() { &["", "+", "{2}", "*?"][..] } else { &["", "{2}"][..] } {
            if !(a == "$" && !p.is_empty()) {
                pieces.push(format!("{a}{p}"));
            }
        }
    }
    let regs: std::collections::BTreeSet<String> = strings(&pieces, 2).into_iter().filter(|w| !w.is_empty()).map(|w| format!("({})", w.concat())).collect();
    let regs: Vec<String> = regs.into_iter().collect();
    for (k, c) in regs.chunks(32).enumerate() {
        let (t, s) = c.split_at(c.len() / 2);
        let (t, s) = if k % 2 == 0 { (t, s) } else { (s, t) };
        let names: Vec<String> = (0..t.len()).map(|i| format!("R{}", (i * 5 + k) % 16)).collect();
        let v: Vec<(&str, &str)> = names.iter().zip(t).map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let s: Vec<&str> = s.iter().map(|x| x.as_str()).collect();
        c25_case(ctx, &[("T", "t")], &v, &s, k / 2 % 2, k % 2 == 0);
        // (and the other way round)
        let names: Vec<String> = (0..s.len()).map(|i| format!("R{}", (i * 11 + k) % 16)).collect();
        let w: Vec<(&str, &str)> = names.iter().map(|a| a.as_str()).zip(s.iter().copied()).collect();
        let t: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
        c25_case(ctx, &[("T", "t")], &w, &t, (k / 2 + 1) % 2, k % 2 == 0);
    }
    // what looks like the end of a raw string
    for n in 1..=9 {
        let h = "#".repeat(n);
        let (l, l2) = (h.clone(), format!("{h}!{h}"));
        for t in [format!("(\"{h})"), format!("(\"{h}a\"{h}b)"), format!("(\"a{h})"), format!("(\"{h}\"#)")] {
            c25_case(ctx, &[("TA", &l), ("TB", &l2)], &[("TC", &t)], &["(\\s+)"], 0, false);
            c25_case(ctx, &[("TA", &l2), ("TB", &l)], &[], &["(\\s+)", &t], 0, false);
        }
    }
    // long definitions and names
    for n in crate::spaces::SIZES.iter().chain(ctx.pick(&[511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 20_000][..], &[511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 20_000, 65_536][..])) {
        for c in ["a", "é", "{", "#", "\\\\", "a b "] {
            let x = c.repeat(*n);
            let (r, s) = (format!("({}x)", c.replace('{', "[{]").repeat(*n)), format!("({}y)", c.replace('{', "[{]").repeat(*n)));
            let name = "N".repeat(*n);
            c25_case(ctx, &[("TA", &x), (&name, "b")], &[("TC", &r)], &[&s], 0, c == "a");
            c25_case(ctx, &[("TA", "a")], &[(&name, &r)], &["(\\s+)", &s], 1, false);
        }
    }
    // many definitions of each kind
    for n in ctx.pick(&[9, 10, 11, 99, 100, 101, 255, 256, 257][..], &[9, 10, 11, 99, 100, 101, 255, 256, 257, 999, 1000, 1001, 1025][..]) {
        for kind in 0..3 {
            let names: Vec<String> = (0..*n).map(|i| format!("T{}", (i * 7) % (n * 7 + 1))).collect();
            let texts: Vec<String> = (0..*n).map(|i| if kind == 0 { format!("t{i}x") } else { format!("(t{i}x)") }).collect();
            let v: Vec<(&str, &str)> = names.iter().zip(&texts).map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let s: Vec<&str> = texts.iter().map(|x| x.as_str()).collect();
            match kind {
                0 => c25_case(ctx, &v, &[("R", "(r)")], &[], 0, false),
                1 => c25_case(ctx, &[("L", "r")], &v, &[], 0, false),
                _ => c25_case(ctx, &[("L", "r")], &[], &s, 0, false),
            }
        }
    }
    // many definitions at once, in rotated orders
    for r in 0..ctx.pick(8, 31) {
        let ln: Vec<String> = (0..LITERALS.len()).map(|i| format!("L{}", (i * 7 + r) % 41)).collect();
        let rn: Vec<String> = (0..REGEXES.len()).map(|i| format!("R{}", (i * 5 + r) % 23)).collect();
        let l: Vec<(&str, &str)> = ln.iter().map(|s| s.as_str()).zip(LITERALS.iter().copied()).collect();
        let x: Vec<(&str, &str)> = rn.iter().map(|s| s.as_str()).zip(REGEXES.iter().copied()).collect();
        c25_case(ctx, &l, &x, SKIPS, r % 2, r % 3 == 0);
    }
}
