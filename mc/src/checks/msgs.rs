//! C26: what errors say, and the default report of them.
use crate::cfg::{Cfg, Sym, Tok};
use crate::checks::common::*;
use crate::checks::g1::{make, BOTH, RECOVERY};
use crate::ctx::{clear_stderr, take_stderr, Ctx};
use crate::dynp::{ErrInfo, Event};
use crate::enumg::*;
use crate::gen::Opts;
use crate::spaces::POOL;
use crate::util::*;

const IGN: Opts = Opts {
    ign_sr: true,
    ign_rr: true,
    states: false,
};

/// definitions for the tokens of a grammar, and pieces of texts
fn variants(g: &Cfg) -> Vec<(&'static str, Cfg, Vec<String>)> {
    let n = g.toks.len();
    let mut out = vec![];
    let plain: Vec<String> = g.toks.iter().map(|t| t.text.clone()).chain(["?".to_string()]).collect();
    out.push(("literals", g.clone(), plain));
    let with = |defs: &[&str], pieces: &[&str], name: &'static str| {
        let mut h = g.clone();
        h.by_name = true;
        for (i, t) in h.toks.iter_mut().enumerate() {
            t.def = defs[i].to_string();
            // (names that are part of each other)
            if i < 3 && name != "awkward" {
                t.name = ["XY", "Y", "X"][i].to_string();
            }
        }
        (name, h, pieces.iter().map(|x| x.to_string()).collect::<Vec<_>>())
    };
    if n <= 3 {
        out.push(with(
            &["([ab]+)", "([bc]+)", "([cd]+)"],
            &["a", "b", "c", "bb", "d", "?"],
            "overlapping",
        ));
        out.push(with(
            &["(x)", "(x?)", "(x|y)"],
            &["x", "y", "z"],
            "same",
        ));
        out.push(with(
            &["\"{0}\"", "\"é ,\"", "\"(%s\""],
            &["{0}", "é ,", "(%s", "ß{}", "\n"],
            "awkward",
        ));
        out.push(with(
            &["(<[^>]*>)", "\"]\"", "([0-9]+)"],
            &["<\n>", "<a  b\r\n\n>", "]", "12", "<"],
            "lines",
        ));
        // long texts
        let long = ["a", "é"].map(|x| x.repeat(300));
        out.push(with(
            &["([a]+)", "([b]+)", "([c]+)"],
            &["a", &long[0], &long[1], "c"],
            "long",
        ));
    }
    out
}

/// as it is displayed, runs of blanks and brackets apart
fn squeeze(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if !" []".contains(c) || !o.ends_with(c) {
            o.push(c)
        }
    }
    o
}

fn case(ctx: &mut Ctx, g: &Cfg, name: &str, pieces: &[String], k: usize, seps: &[&str]) {
    if !ctx.mine() {
        ctx.skip_case();
        return;
    }
    let dir = ctx.dir.clone();
    ctx.case(
        || format!("{name}: {}", show(g)),
        |st| {
            for which in BOTH {
                let gen = make(g, which, IGN, &dir, st)?;
                let idx: Vec<usize> = (0..pieces.len()).collect();
                let mut n = 0;
                for w in strings(&idx, k) {
                    for (s, sep) in seps.iter().enumerate() {
                        if s > 0 && w.len() < 2 {
                            continue;
                        }
                        let v: Vec<&str> = w.iter().map(|i| pieces[*i].as_str()).collect();
                        let text = v.join(sep);
                        for label in ["t", "a b", ""] {
                            if label != "t" && w.len() + 1 > k {
                                continue;
                            }
                            let bad = |how: String| text_violation(g, which, &text, how);
                            clear_stderr();
                            let a = gen.p.parse(&text, label).map_err(bad)?;
                            n += 1;
                            st.add("transitions", a.steps);
                            let noise = take_stderr();
                            if !noise.is_empty() {
                                return Err(bad(format!("with a report of one's own {noise:?} is printed")));
                            }
                            // the messages
                            let errs = a.errors();
                            if errs.len() != a.messages.len() {
                                panic!("machinery: messages");
                            }
                            let mut upto = a.messages.len();
                            for (i, (got, want)) in a.messages.iter().enumerate() {
                                let want2 = squeeze(want);
                                if squeeze(got) != want2 {
                                    return Err(bad(format!("the message of error {} is {got:?} but should be {want:?}", i + 1)));
                                }
                                if let ErrInfo::Syntax(_, lex, ..) = errs[i] {
                                    if !got.contains(lex.as_str()) {
                                        return Err(bad(format!("the message {got:?} lacks {lex:?}")));
                                    }
                                }
                                st.add("messages_compared", 1);
                                if upto > i && got.contains("Lexical error: Unexpected text [") && is_ambiguous(errs[i]) {
                                    upto = i;
                                }
                            }
                            // the default report
                            let all: String = a.messages[..upto].iter().map(|m| m.0.as_str()).collect();
                            let d = gen.p.parse_default(&text, label);
                            let said = take_stderr();
                            if said != all {
                                return Err(bad(format!("the default report prints {said:?} but should print {all:?}")));
                            }
                            st.add("traces_validated_against_impl", 1);
                            match d {
                                Ok(d) if upto == a.messages.len() => {
                                    let want: Vec<&Event> =
                                        a.events.iter().filter(|e| !matches!(e, Event::Error(_))).collect();
                                    if d.events.iter().collect::<Vec<_>>() != want || d.result != a.result {
                                        return Err(bad("with the default report the parse goes otherwise".into()));
                                    }
                                    st.add("default_reports", upto as u64);
                                }
                                Ok(_) => return Err(bad("an ambiguous match isn't fatal with the default report".into())),
                                Err(m) if upto < a.messages.len() => {
                                    if !m.contains("Fatal Error") || !m.contains(&a.messages[upto].0) {
                                        return Err(bad(format!("the ambiguous match ends in {m:?}")));
                                    }
                                    st.add("ambiguous_matches_fatal", 1);
                                }
                                Err(m) => return Err(bad(format!("with the default report: {m}"))),
                            }
                        }
                    }
                }
                st.sample(|| format!("{name}: {}: {n} texts", show(g)));
            }
            Ok(())
        },
    );
}

fn is_ambiguous(e: &ErrInfo) -> bool {
    matches!(e, ErrInfo::Lexical(m, _) if m.starts_with("Unexpected text ["))
}

pub fn c26(ctx: &mut Ctx) {
    let mut pool: Vec<&str> = POOL.to_vec();
    pool.extend(RECOVERY);
    for s in pool {
        let g = parse_grammar(s);
        for (name, h, pieces) in variants(&g) {
            let k = match pieces.len() {
                ..=4 => ctx.pick(5, 7),
                5 => ctx.pick(4, 6),
                6 => ctx.pick(4, 5),
                _ => ctx.pick(3, 4),
            };
            case(ctx, &h, name, &pieces, k, &[" ", "", "\n"]);
        }
    }
    // many tokens expected
    for n in [9, 10, 11, 12, 99, 100, 101, 255, 256, 257] {
        if n > 12 && !ctx.thorough() && n % 5 > 1 {
            continue;
        }
        let mut g = Cfg::default();
        for i in 0..n {
            g.toks.push(Tok {
                name: format!("K{i}"),
                def: format!("\"k{i}\""),
                text: format!("k{i}"),
            });
        }
        g.nts.push("N0".into());
        g.skips.push("(\\s+)".into());
        for i in 1..n as u16 {
            g.add(0, vec![Sym::T(i), Sym::T(0)]);
        }
        let pieces: Vec<String> = [0, 1, n - 1].iter().map(|i| format!("k{i}")).chain(["?".into()]).collect();
        case(ctx, &g, &format!("{n} tokens"), &pieces, 3, &[" "]);
    }
}
