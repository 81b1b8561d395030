//! C06: streams and parsers do not influence one another
use super::lex::*;
use crate::checks::common::build;
use crate::ctx::{no_panic, Ctx};
use crate::dynp::{Parsed, Ready};
use crate::enumg::*;
use crate::gen::{Opts, Which};
use crate::util::*;
use lexan::{LexicalAnalyzer, TokenStream};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Next,
    Advance,
    Inject,
}

fn defs() -> Defs {
    Defs::new(&["a"], &["b+", "b[b]*c"], &["\\s"])
}

struct Live {
    s: Option<TokenStream<G>>,
    seen: Vec<(Obs, bool)>,
}

fn step(l: &mut Live, an: &LexicalAnalyzer<G>, text: &str, label: &str, op: Option<Op>) {
    match op {
        None => l.s = Some(an.token_stream(text, label)),
        Some(op) => {
            let s = l.s.as_mut().unwrap();
            match op {
                Op::Next => {
                    let o = observe(s.front_advance());
                    l.seen.push((o, s.is_empty()));
                }
                Op::Advance => s.advance(),
                Op::Inject => s.inject("bb a\n", &format!("injected into {label}")),
            }
        }
    }
    let s = l.s.as_ref().unwrap();
    l.seen.push((observe(s.front()), s.is_empty()));
}

fn alone(text: &str, label: &str, script: &[Op]) -> Vec<(Obs, bool)> {
    let an = defs().real(END);
    let mut l = Live {
        s: None,
        seen: vec![],
    };
    step(&mut l, &an, text, label, None);
    for o in script {
        step(&mut l, &an, text, label, Some(*o));
    }
    l.seen
}

fn merges(left: &mut Vec<usize>, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
    let mut any = false;
    for i in 0..left.len() {
        if left[i] > 0 {
            any = true;
            left[i] -= 1;
            cur.push(i);
            merges(left, cur, f);
            cur.pop();
            left[i] += 1;
        }
    }
    if !any {
        f(cur)
    }
}

const TEXTS: [&str; 4] = ["a b\n a", "b ? bbc a", "", "a"];
/// recovery, failing at once, injecting, nullable
const GRAMMARS: [&str; 4] = [
    "S: S L|; L: a d|! d",
    "S: a S b|c",
    "S: ! d|a S|d",
    "S: A B c; A: a|; B: b|!",
];

fn streams(ctx: &mut Ctx, n: usize, len: usize) {
    let ops = [Op::Next, Op::Advance, Op::Inject];
    let scripts: Vec<Vec<Op>> = strings(&ops, len).into_iter().filter(|s| s.len() == len).collect();
    let labels: Vec<String> = (0..n).map(|i| format!("stream{i}")).collect();
    let idx: Vec<usize> = (0..scripts.len()).collect();
    let choices: Vec<Vec<usize>> = strings(&idx, n).into_iter().filter(|s| s.len() == n).collect();
    for t0 in 0..TEXTS.len() {
        for chunk in choices.chunks(if n == 2 { 81 } else { 27 }) {
            ctx.case(
                || format!("{n} streams, first text {t0}, scripts {:?}...", chunk[0]),
                |st| {
                    for sc in chunk {
                        let text = |i: usize| TEXTS[(t0 + i * (1 + t0 % 2)) % TEXTS.len()];
                        let want: Vec<Vec<(Obs, bool)>> =
                            (0..n).map(|i| alone(text(i), &labels[i], &scripts[sc[i]])).collect();
                        let mut bad: Option<Violation> = None;
                        let mut count = 0;
                        merges(&mut vec![len + 1; n], &mut vec![], &mut |order| {
                            if bad.is_some() {
                                return;
                            }
                            count += 1;
                            let an = defs().real(END);
                            let mut ls: Vec<Live> = (0..n)
                                .map(|_| Live {
                                    s: None,
                                    seen: vec![],
                                })
                                .collect();
                            let mut at = vec![0usize; n];
                            for i in order {
                                let op = if at[*i] == 0 { None } else { Some(scripts[sc[*i]][at[*i] - 1]) };
                                at[*i] += 1;
                                step(&mut ls[*i], &an, text(*i), &labels[*i], op);
                            }
                            for i in 0..n {
                                if ls[i].seen != want[i] {
                                    let scr: Vec<_> = sc.iter().map(|k| &scripts[*k]).collect();
                                    bad = Some(Violation::new(
                                        format!("stream {i} of {n} behaves differently when interleaved {order:?} with scripts {scr:?}"),
                                        format!("texts {:?}\nseen {:?}\nalone {:?}", (0..n).map(text).collect::<Vec<_>>(), ls[i].seen, want[i]),
                                        format!("streams {n} {order:?} {scr:?} {t0}"),
                                    ));
                                }
                            }
                        });
                        st.add("states", count);
                        st.add("transitions", count * (n * (len + 1)) as u64);
                        st.add("traces_validated_against_impl", count);
                        if let Some(b) = bad {
                            return Err(b);
                        }
                    }
                    st.sample(|| {
                        format!("{n} streams, all merges of {:?} on {:?}", scripts[chunk[0][0]], TEXTS[t0])
                    });
                    Ok(())
                },
            );
        }
    }
}

/// the same with every stream on a thread of its own, the threads taking turns step by step
fn on_threads(ctx: &mut Ctx, n: usize, len: usize) {
    let ops = [Op::Next, Op::Advance, Op::Inject];
    let scripts: Vec<Vec<Op>> = strings(&ops, len).into_iter().filter(|s| s.len() == len).collect();
    let labels: Vec<String> = (0..n).map(|i| format!("stream{i}")).collect();
    let idx: Vec<usize> = (0..scripts.len()).collect();
    let choices: Vec<Vec<usize>> = strings(&idx, n).into_iter().filter(|s| s.len() == n).collect();
    for t0 in 0..TEXTS.len() {
        for chunk in choices.chunks(9) {
            ctx.case(
                || format!("{n} streams on threads, first text {t0}, scripts {:?}...", chunk[0]),
                |st| {
                    for sc in chunk {
                        let text = |i: usize| TEXTS[(t0 + i * (1 + t0 % 2)) % TEXTS.len()];
                        let want: Vec<Vec<(Obs, bool)>> =
                            (0..n).map(|i| alone(text(i), &labels[i], &scripts[sc[i]])).collect();
                        let mut orders = vec![];
                        merges(&mut vec![len + 1; n], &mut vec![], &mut |order| orders.push(order.to_vec()));
                        for order in orders {
                            let an = defs().real(END);
                            let mut go = vec![];
                            let (done, wait) = std::sync::mpsc::channel::<()>();
                            let seen = std::thread::scope(|scope| {
                                let mut hs = vec![];
                                for i in 0..n {
                                    let (tx, rx) = std::sync::mpsc::channel::<()>();
                                    go.push(tx);
                                    let (an, done, label, script, text) = (&an, done.clone(), &labels[i], &scripts[sc[i]], text(i));
                                    hs.push(scope.spawn(move || {
                                        let mut l = Live { s: None, seen: vec![] };
                                        for k in 0..=script.len() {
                                            if rx.recv().is_err() {
                                                break;
                                            }
                                            let op = if k == 0 { None } else { Some(script[k - 1]) };
                                            let r = no_panic(|| step(&mut l, an, text, label, op));
                                            let _ = done.send(());
                                            if r.is_err() {
                                                return Err(r);
                                            }
                                        }
                                        Ok(l.seen)
                                    }));
                                }
                                for i in &order {
                                    if go[*i].send(()).is_ok() {
                                        let _ = wait.recv();
                                    }
                                }
                                go.clear();
                                hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
                            });
                            for i in 0..n {
                                if seen[i].as_ref() != Ok(&want[i]) {
                                    let scr: Vec<_> = sc.iter().map(|k| &scripts[*k]).collect();
                                    return Err(Violation::new(
                                        format!("stream {i} of {n}, each on a thread of its own, behaves differently when interleaved {order:?} with scripts {scr:?}"),
                                        format!("texts {:?}\nseen {:?}\nalone {:?}", (0..n).map(text).collect::<Vec<_>>(), seen[i], want[i]),
                                        format!("threads {n} {order:?} {scr:?} {t0}"),
                                    ));
                                }
                            }
                            st.add("states", 1);
                            st.add("transitions", (n * (len + 1)) as u64);
                            st.add("traces_validated_against_impl", 1);
                        }
                    }
                    st.sample(|| format!("{n} streams on threads, all merges of {:?} on {:?}", scripts[chunk[0][0]], TEXTS[t0]));
                    Ok(())
                },
            );
        }
    }
}

/// everything a stream of a text presents
fn whole(an: &LexicalAnalyzer<G>, text: &str) -> Vec<(Obs, bool)> {
    let mut s = an.token_stream(text, "t");
    let mut v = vec![];
    for _ in 0..2 * text.len() + 4 {
        let e = s.is_empty();
        v.push((observe(s.front_advance()), e));
        if e {
            break;
        }
    }
    v
}

/// two texts alternately, step by step
fn alternating(an: &LexicalAnalyzer<G>, texts: [&str; 2]) -> [Vec<(Obs, bool)>; 2] {
    let mut ss = [an.token_stream(texts[0], "t"), an.token_stream(texts[1], "t")];
    let mut v = [vec![], vec![]];
    let mut done = [false; 2];
    while done != [true; 2] {
        for i in 0..2 {
            if !done[i] {
                let e = ss[i].is_empty();
                v[i].push((observe(ss[i].front_advance()), e));
                done[i] = e || v[i].len() > 2 * texts[i].len() + 4;
            }
        }
    }
    v
}

/// one text after (and during) another, with one analyser
fn pairs(ctx: &mut Ctx, alpha: &[&str], len: usize) {
    let texts: Vec<String> = strings(alpha, len).into_iter().map(|w| w.concat()).collect();
    let alone: Vec<Vec<(Obs, bool)>> = {
        texts.iter().map(|t| no_panic(|| whole(&defs().real(END), t)).unwrap_or_default()).collect()
    };
    for (c, chunk) in texts.chunks(8).enumerate() {
        ctx.case(
            || format!("pairs of texts over {alpha:?} starting with {:?}", chunk[0]),
            |st| {
                for (i, a) in chunk.iter().enumerate() {
                    let i = c * 8 + i;
                    let an = defs().real(END);
                    for (j, b) in texts.iter().enumerate() {
                        let got = no_panic(|| (whole(&an, a), whole(&an, b), alternating(&an, [a, b])));
                        let bad = |how: String| {
                            Violation::new(format!("texts {a:?} and {b:?} with one analyser: {how}"), String::new(), format!("{a:?} {b:?}"))
                        };
                        let (x, y, z) = got.map_err(|e| bad(format!("panic: {e}")))?;
                        for (what, k, v) in [("first", i, &x), ("second", j, &y), ("first of two at once", i, &z[0]), ("second of two at once", j, &z[1])] {
                            if *v != alone[k] {
                                return Err(bad(format!("the {what} yields {v:?}, alone {:?}", alone[k])));
                            }
                        }
                        st.add("states", 2);
                        st.add("transitions", 2 * (x.len() + y.len()) as u64);
                        st.add("traces_validated_against_impl", 2);
                    }
                }
                st.sample(|| format!("{:?} with every text over {alpha:?} of up to {len} characters", chunk[0]));
                Ok(())
            },
        );
    }
}

fn texts_for(alpha: &[&str]) -> Vec<String> {
    strings(alpha, 3).into_iter().map(|w| w.join(" ")).collect()
}

fn fresh(g: &str, which: Which, dir: &std::path::Path) -> Result<Ready, Violation> {
    let mut c = parse_grammar(g);
    if g.contains("a S b") {
        // injects
        c.prods[1].action =
            Some(Some(" $$ = act(1, vec![$1.clone()]); $INJECT(\"b\".to_string(), \"extra\".to_string()); ".into()));
    }
    match build(&c, which, Opts { ign_sr: true, ign_rr: true, states: false }, dir)? {
        Ok(r) => Ok(r),
        Err(e) => Err(Violation::new(format!("{g} refused: {e:?}"), c.spec(), g)),
    }
}

pub fn run(ctx: &mut Ctx) {
    streams(ctx, 2, ctx.pick(3, 4));
    streams(ctx, 3, ctx.pick(1, 2));
    on_threads(ctx, 2, ctx.pick(2, 3));
    on_threads(ctx, 3, 1);
    pairs(ctx, &["a", "?", " "], ctx.pick(5, 6));
    pairs(ctx, &["a", "b", "?", "\n", "c"], ctx.pick(3, 4));
    for g in GRAMMARS {
        for which in [Which::Plain, Which::Aug] {
            let alpha: Vec<&str> = if g.contains('c') { vec!["a", "b", "c", "?"] } else { vec!["a", "d", "?"] };
            let all = texts_for(&alpha);
            let some: Vec<&String> = all.iter().step_by(ctx.pick(7, 3)).collect();
            // sequences with one parser, each compared with a parser that never parsed anything else
            for (ci, chunk) in all.chunks(8).enumerate() {
                let dir = ctx.dir.clone();
                ctx.case(
                    || format!("{} {g}: sequences starting with {:?}...", which.name(), chunk[0]),
                    |st| {
                        let p = fresh(g, which, &dir)?;
                        let want = |t: &str| -> Result<Result<Parsed, String>, Violation> {
                            Ok(fresh(g, which, &dir)?.parse(t, "t"))
                        };
                        let wants: std::collections::BTreeMap<&str, Result<Parsed, String>> = {
                            let mut m = std::collections::BTreeMap::new();
                            for t in chunk.iter().chain(some.iter().copied()) {
                                m.insert(t.as_str(), want(t)?);
                            }
                            m
                        };
                        let check = |seq: &[&str], got: &[Result<Parsed, String>]| -> CheckResult {
                            for (i, t) in seq.iter().enumerate() {
                                if got[i] != wants[t] {
                                    return Err(Violation::new(
                                        format!("{} {g}: parse {i} of {seq:?} differs from parsing {t:?} alone", which.name()),
                                        format!("got {:?}\nalone {:?}", got[i], wants[t]),
                                        format!("{} {g} {seq:?}", which.name()),
                                    ));
                                }
                            }
                            Ok(())
                        };
                        for a in chunk {
                            for b in &some {
                                let seq2 = [a.as_str(), b.as_str(), a.as_str()];
                                check(&seq2, &p.parse_seq(&seq2, "t", None))?;
                                for c in some.iter().step_by(3) {
                                    let seq3 = [a.as_str(), b.as_str(), c.as_str(), b.as_str()];
                                    check(&seq3, &p.parse_seq(&seq3, "t", None))?;
                                    st.add("traces_validated_against_impl", 1);
                                    st.add("transitions", 4);
                                }
                                st.add("traces_validated_against_impl", 1);
                                st.add("transitions", 3);
                            }
                        }
                        st.add("parsers_generated", 1);
                        st.add("states", chunk.len() as u64);
                        // a parse on another thread, at each of the reductions of one on this
                        for a in chunk.iter().step_by(3) {
                            let Ok(alone) = &wants[a.as_str()] else { continue };
                            for b in some.iter().step_by(7) {
                                for k in 1..=alone.events.len() {
                                    let out: Rc<RefCell<Vec<String>>> = Rc::default();
                                    let (o2, b2, dir2) = (out.clone(), b.to_string(), dir.clone());
                                    let hook: crate::dynp::Hook = Rc::new(move |i| {
                                        if i == k {
                                            let r = std::thread::scope(|s| {
                                                s.spawn(|| format!("{:?}", fresh(g, which, &dir2).map_err(|v| v.what).and_then(|p| p.parse(&b2, "t")))).join()
                                            });
                                            o2.borrow_mut().push(r.unwrap_or_else(|_| "panic".into()));
                                        }
                                    });
                                    let got = no_panic(|| p.parse_seq(&[a.as_str()], "t", Some(hook)));
                                    let Ok(got) = got else { continue };
                                    check(&[a.as_str()], &got)?;
                                    for r in out.borrow().iter() {
                                        let alone = format!("{:?}", wants[b.as_str()]);
                                        if *r != alone {
                                            return Err(Violation::new(
                                                format!("{} {g}: parsing {b:?} on a thread of its own during the parse of {a:?} differs from parsing it alone", which.name()),
                                                format!("got {r}\nalone {alone}"),
                                                format!("{} {g} thread {a:?} {b:?}", which.name()),
                                            ));
                                        }
                                    }
                                    st.add("parses_on_other_threads", 1);
                                }
                            }
                        }
                        // a parse begun while another one is under way, at each of its reductions
                        let other = fresh(GRAMMARS[(ci + 1) % 4], if ci % 2 == 0 { which } else { Which::Plain }, &dir)?;
                        for a in chunk {
                            let Ok(alone) = &wants[a.as_str()] else { continue };
                            let n = alone.events.len();
                            for b in some.iter().step_by(2) {
                                for k in 1..=n {
                                    for same in [true, false] {
                                        let q: Rc<Ready> = Rc::new(Ready {
                                            t: if same { p.t.clone() } else { other.t.clone() },
                                            lex: if same { p.lex.clone() } else { other.lex.clone() },
                                            limit: p.limit,
                                            preds: None,
                                        });
                                        let out: Rc<RefCell<Vec<Result<Parsed, String>>>> = Rc::default();
                                        let (q2, o2, b2) = (q.clone(), out.clone(), b.to_string());
                                        let hook: crate::dynp::Hook = Rc::new(move |i| {
                                            if i == k {
                                                let r = q2.parse(&b2, "t");
                                                o2.borrow_mut().push(r);
                                            }
                                        });
                                        let got = no_panic(|| p.parse_seq(&[a.as_str()], "t", Some(hook)));
                                        let Ok(got) = got else { continue };
                                        check(&[a.as_str()], &got)?;
                                        if same {
                                            for r in out.borrow().iter() {
                                                check(&[b.as_str()], std::slice::from_ref(r))?;
                                            }
                                        }
                                        st.add("nested_parses", 1);
                                    }
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
