//! Realistic grammars: those of the repository's own specifications and of small languages.
use crate::cfg::{Assoc, Cfg, PrecRef, Sym, Tok};

macro_rules! corpus {
    ($($f:literal)*) => {
        pub const CORPUS: &[(&str, &str)] = &[$(($f, include_str!(concat!("../corpus/", $f)))),*];
    };
}
corpus!("json.lap" "json_rec.lap" "calc_no_aug.lap" "calc.alap" "minic_rec.lap" "ambig.lap" "expr.lap" "sql.lap" "lua.lap" "parser.lap" "parser.alap" "minic.lap");

/// the grammar and the productions with a predicate
pub fn read(text: &str) -> (Cfg, Vec<usize>) {
    let mut g = Cfg::default();
    let lines: Vec<Vec<&str>> =
        text.lines().map(|l| l.split_whitespace().collect()).filter(|l: &Vec<&str>| !l.is_empty()).collect();
    let rules: Vec<&Vec<&str>> = lines.iter().filter(|l| l[0].ends_with(':')).collect();
    for r in &rules {
        g.nts.push(r[0].trim_end_matches(':').to_string());
    }
    let mut names: Vec<&str> = lines.iter().filter(|l| l[0] == "tok").map(|l| l[1]).collect();
    for r in &rules {
        for (i, x) in r.iter().enumerate().skip(1) {
            if !["|", "?", "%error", "%prec"].contains(x)
                && r[i - 1] != "%prec"
                && !g.nts.iter().any(|n| n == x)
                && !names.contains(x)
            {
                names.push(x);
            }
        }
    }
    for n in &names {
        g.toks.push(Tok {
            name: n.to_string(),
            def: format!("\"{}\"", n.to_lowercase()),
            text: n.to_lowercase(),
        });
    }
    g.skips.push("(\\s+)".into());
    let prec = |g: &mut Cfg, x: &str| match names.iter().position(|n| *n == x) {
        Some(i) => PrecRef::Tok(i as u16),
        None => {
            let i = g.tags.iter().position(|t| t == x).unwrap_or_else(|| {
                g.tags.push(x.to_string());
                g.tags.len() - 1
            });
            PrecRef::Tag(i as u16)
        }
    };
    for l in &lines {
        let a = match l[0] {
            "left" => Assoc::Left,
            "right" => Assoc::Right,
            "non" => Assoc::Non,
            _ => continue,
        };
        let v = l[1..].iter().map(|x| prec(&mut g, x)).collect();
        g.levels.push((a, v));
    }
    let mut preds = vec![];
    for (k, r) in rules.iter().enumerate() {
        for alt in r[1..].split(|x| *x == "|") {
            let mut rhs = vec![];
            let mut p = None;
            let mut i = 0;
            let mut pred = false;
            while i < alt.len() {
                match alt[i] {
                    "?" => pred = true,
                    "%error" => rhs.push(Sym::Err),
                    "%prec" => {
                        p = Some(prec(&mut g, alt[i + 1]));
                        i += 1;
                    }
                    x => rhs.push(match g.nts.iter().position(|n| n == x) {
                        Some(n) => Sym::N(n as u16),
                        None => Sym::T(names.iter().position(|n| *n == x).unwrap() as u16),
                    }),
                }
                i += 1;
            }
            g.add(k as u16, rhs);
            let n = g.prods.len() - 1;
            g.prods[n].prec = p;
            if pred {
                preds.push(n);
            }
        }
    }
    (g, preds)
}

/// sentences with each of them damaged at each place: a token left out, doubled, replaced by or
/// preceded by each of `with`
pub fn damaged(ws: &[Vec<usize>], with: &[usize]) -> Vec<Vec<usize>> {
    let mut out = std::collections::BTreeSet::new();
    for w in ws {
        out.insert(w.clone());
        for i in 0..=w.len() {
            let mut put = |n: usize, x: &[usize]| {
                let mut v = w.clone();
                v.splice(i..(i + n).min(w.len()), x.iter().copied());
                out.insert(v);
            };
            if i < w.len() {
                put(1, &[]);
                put(0, &[w[i]]);
            }
            for x in with {
                put(0, &[*x]);
                put(1, &[*x]);
            }
            put(usize::MAX / 2, &[]);
        }
    }
    out.into_iter().collect()
}
