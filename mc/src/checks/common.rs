//! What the checks on generated parsers share.
use crate::cfg::{Cfg, Lang};
use crate::dynp::{Event, Parsed, Ready};
use crate::refparse::{Drv, Piece, REvent, RRun};
use crate::enumg::*;
use crate::gen::{generate, Opts, Refusal, Which};
use crate::reflr::Lr;
use crate::util::*;
use std::collections::HashMap;
use std::path::Path;

pub fn text_of(g: &Cfg, w: &[u16]) -> String {
    let v: Vec<&str> = w.iter().map(|t| g.toks[*t as usize].text.as_str()).collect();
    v.join(" ")
}

pub fn src(g: &Cfg) -> crate::fallback::Src<'_> {
    crate::fallback::Src {
        attr: g.attr.as_deref().unwrap_or("Attr"),
        target: g.target.as_deref().unwrap_or("Prs"),
        wrap: g.preamble.is_none(),
    }
}

/// generates and extracts; a refusal or incomprehensible code is reported as a violation / machinery panic
pub fn build(g: &Cfg, which: Which, o: Opts, dir: &Path) -> Result<Result<Ready, Refusal>, Violation> {
    let spec = g.spec();
    match generate(which, &spec, "spec", o, dir) {
        Ok(out) => {
            match crate::fallback::extract(which, &out.code, &src(g), dir) {
                Ok(t) => Ok(Ok(Ready::new(t))),
                Err(e) => Err(Violation::new(format!("{}: generated code of {}: {e}", which.name(), show(g)), spec, "")),
            }
        }
        Err(r) => Ok(Err(r)),
    }
}

/// does the reference automaton have conflicts? (cross checking the reference on the way)
pub fn clean(g: &Cfg, st: &mut Stats) -> bool {
    let l = Lr::new(g);
    st.add("grammars_enumerated", 1);
    // (look ahead sets of items before unproductive symbols are empty, so that the canonical
    // collection lacks them)
    let productive = g.productive().iter().all(|x| *x);
    match if productive { l.self_check(400) } else { Ok(false) } {
        Ok(true) => st.add("reference_automata_cross_checked", 1),
        Ok(false) => (),
        Err(e) => panic!("machinery: {e}: {}", show(g)),
    }
    let r = l.resolve();
    r.clashes == 0
}


/// string models by number of tokens
#[derive(Default)]
pub struct Langs {
    m: HashMap<(usize, usize), Lang>,
}

impl Langs {
    pub fn get(&mut self, ntok: usize, k: usize) -> &Lang {
        self.m.entry((ntok, k)).or_insert_with(|| Lang::new(ntok, k))
    }
}

/// a grammar with its reference automaton and its generated parser
pub struct Gen {
    pub p: Ready,
    /// reference token id -> tag of the generated parser
    pub map: Vec<u16>,
    pub which: Which,
}

impl Gen {
    pub fn new(p: Ready, g: &Cfg, which: Which) -> Result<Gen, Violation> {
        let mut map = vec![p.t.end];
        for t in &g.toks {
            match p.t.term(&t.name) {
                Some(x) => map.push(x),
                None => {
                    return Err(Violation::new(
                        format!("{}: token {} is not in the generated parser of {}", which.name(), t.name, show(g)),
                        g.spec(),
                        "",
                    ))
                }
            }
        }
        Ok(Gen { p, map, which })
    }
}

/// one text through the real parser and the reference: both runs, or how they differ
pub fn versus(
    gen: &Gen,
    d: &Drv,
    text: &str,
    ps: &[Piece],
    end_loc: &str,
) -> Result<(Parsed, RRun), String> {
    let want = d.run(ps, end_loc);
    let got = gen.p.parse(text, "t")?;
    if want.livelock {
        return Err("the reference parser does not end, the real one does".into());
    }
    if want.over {
        return Ok((got, want));
    }
    let n = got.events.len().max(want.events.len());
    for i in 0..n {
        let same = match (got.events.get(i), want.events.get(i)) {
            (Some(Event::Reduce(_, a)), Some(REvent::Reduce(_, b))) => a.show() == *b,
            (Some(Event::Error(a)), Some(REvent::Error(b))) => a.show() == *b,
            _ => false,
        };
        if !same {
            let w = match want.events.get(i) {
                Some(REvent::Reduce(_, a)) => format!("reduction to {a}"),
                Some(REvent::Error(a)) => format!("error {a}"),
                None => format!("the end ({})", if want.ok { "success" } else { "failure" }),
            };
            let g = match got.events.get(i) {
                Some(Event::Reduce(_, a)) => format!("reduction to {}", a.show()),
                Some(Event::Error(a)) => format!("error {}", a.show()),
                None => format!("the end ({:?})", got.result),
            };
            return Err(format!("event {i} is {g} but should be {w}"));
        }
    }
    if got.result.is_ok() != want.ok {
        return Err(format!("result {:?} but should be success: {}", got.result, want.ok));
    }
    if let Err(e) = &got.result {
        let last = want.events.iter().rev().find_map(|e| match e {
            REvent::Error(s) => Some(s),
            _ => None,
        });
        if last != Some(&e.show()) {
            return Err(format!("returned {} but the last error was {last:?}", e.show()));
        }
    }
    Ok((got, want))
}

pub fn text_violation(g: &Cfg, which: Which, text: &str, how: String) -> Violation {
    Violation::new(
        format!("{}: text {text:?} of {}: {how}", which.name(), show(g)),
        g.spec(),
        format!("{} {} {text:?}", which.name(), show(g)),
    )
}

pub fn refused(g: &Cfg, which: Which, r: &Refusal, note: &str) -> Violation {
    Violation::new(
        format!("{}: {} refused{note}: {r:?}", which.name(), show(g)),
        g.spec(),
        format!("{} {} refused", which.name(), show(g)),
    )
}

/// texts as token indices; `bad` also puts unexpected text (an index beyond the tokens) everywhere
pub fn texts(ntok: usize, k: usize, bad: bool) -> Vec<Vec<usize>> {
    let alpha: Vec<usize> = (0..ntok + bad as usize).collect();
    strings(&alpha, k)
}
