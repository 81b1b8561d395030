//! A reference parser (with error recovery and injection) over the reference automaton, written from the
//! properties' statements, producing the events the real runtime should produce.
use crate::cfg::{Cfg, Sym};
use crate::reflr::{Lr, Resolved, TokSet, X};
use std::collections::BTreeSet;

/// a piece of text: a token, or something that isn't one
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Piece {
    /// token id (grammar's token + 1); None: unexpected text
    pub tok: Option<u16>,
    pub text: String,
    pub loc: String,
    /// location of the end of the text it is in
    pub end_loc: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum REvent {
    Reduce(u16, String),
    Error(String),
}

#[derive(Clone, Debug, Default)]
pub struct RRun {
    pub events: Vec<REvent>,
    pub ok: bool,
    pub moves: u64,
    /// the same configuration came again
    pub livelock: bool,
    /// more moves than allowed
    pub over: bool,
    pub skipped: u64,
    pub recoveries: u64,
    /// index of the piece at which the first error was found (its length: the end)
    pub first_error: Option<(usize, TokSet)>,
    /// reductions were made between the last shift and the first error
    pub reduced_before_error: bool,
    pub injections: u64,
}

pub type Choose<'a> = &'a dyn Fn(&[u16], &[String], u16) -> Option<u16>;

pub struct Drv<'a> {
    pub g: &'a Cfg,
    pub l: &'a Lr,
    pub r: &'a Resolved,
    /// reference token id -> tag in the generated parser
    pub map: &'a [u16],
    /// which of several completed productions is reduced (given the attributes on the stack)
    pub choose: Choose<'a>,
    /// texts injected by the action of a (user) production, in the order of injection
    pub inject: Option<&'a dyn Fn(u16) -> Vec<Vec<Piece>>>,
    pub budget: u64,
}

pub fn first_declared(c: &[u16], _: &[String], _: u16) -> Option<u16> {
    c.first().copied()
}

pub fn locs(label: &str, offset: usize) -> String {
    format!("{label}:1:{offset}")
}

/// the pieces of a text made of token indices and '?' (as usize::MAX), joined by blanks
pub fn pieces(g: &Cfg, w: &[usize], label: &str) -> (String, Vec<Piece>) {
    let mut text = String::new();
    let mut v = vec![];
    for (i, t) in w.iter().enumerate() {
        if i > 0 {
            text.push(' ');
        }
        let (tok, s) = match g.toks.get(*t) {
            Some(x) => (Some(*t as u16 + 1), x.text.as_str()),
            None => (None, "?"),
        };
        v.push(Piece {
            tok,
            text: s.to_string(),
            loc: locs(label, text.len() + 1),
            end_loc: String::new(),
        });
        text.push_str(s);
    }
    let e = locs(label, text.len() + 1);
    for p in v.iter_mut() {
        p.end_loc = e.clone();
    }
    (text, v)
}

impl Drv<'_> {
    pub fn set(&self, s: TokSet) -> Vec<u16> {
        let mut v: Vec<u16> =
            (0..self.l.ntok).filter(|t| s.has(*t as u16)).map(|t| self.map[t]).collect();
        v.sort();
        v
    }

    /// attribute of user production p (index in the grammar) given those of its symbols
    fn value(&self, p: usize, kids: &[String]) -> String {
        match &self.g.prods[p].action {
            Some(None) => kids.first().cloned().unwrap_or_else(|| "-".into()),
            _ => format!("{p}({})", kids.join(" ")),
        }
    }

    pub fn run(&self, text: &[Piece], text_end: &str) -> RRun {
        self.run_with(text, text_end, &|p, k| self.value(p, k))
    }

    /// `value`: attribute of a (user) production given those of its symbols
    pub fn run_with(
        &self,
        text: &[Piece],
        text_end: &str,
        value: &dyn Fn(usize, &[String]) -> String,
    ) -> RRun {
        let mut run = RRun::default();
        let mut pieces = text.to_vec();
        let mut stack: Vec<(usize, String)> = vec![(0, String::new())];
        let mut pos = 0usize;
        let mut last_error_state: Option<usize> = None;
        let mut ok = true;
        let mut reduced = false;
        let mut seen: BTreeSet<(Vec<usize>, usize, Option<usize>)> = BTreeSet::new();
        loop {
            run.moves += 1;
            let key = (stack.iter().map(|x| x.0).collect(), pieces.len() - pos, last_error_state);
            if self.inject.is_none() && !seen.insert(key) {
                run.livelock = true;
                return run;
            }
            if run.moves > self.budget {
                run.over = true;
                return run;
            }
            let s = stack.last().unwrap().0;
            let end = Piece {
                tok: Some(0),
                text: String::new(),
                loc: pieces.last().map(|p| p.end_loc.clone()).unwrap_or_else(|| text_end.to_string()),
                end_loc: String::new(),
            };
            let here = pieces.get(pos).cloned().unwrap_or(end);
            if let Some(t) = here.tok {
                if let Some(to) = self.r.shifts[s].get(&t) {
                    stack.push((*to, format!("{}@{}", here.text, here.loc)));
                    reduced = false;
                    pos += 1;
                    continue;
                }
                let cands = self.r.reductions(s, t);
                if !cands.is_empty() {
                    let shown: Vec<String> = stack.iter().map(|x| x.1.clone()).collect();
                    if let Some(p) = (self.choose)(&cands, &shown, t) {
                        if p == 0 {
                            run.ok = ok;
                            return run;
                        }
                        let pr = &self.l.prods[p as usize];
                        let kids: Vec<String> = stack
                            .split_off(stack.len() - pr.rhs.len())
                            .into_iter()
                            .map(|x| x.1)
                            .collect();
                        let a = if pr.lhs == self.l.err {
                            "-".to_string()
                        } else {
                            if let Some(f) = self.inject {
                                for x in f(p - 1) {
                                    run.injections += 1;
                                    pieces.splice(pos..pos, x);
                                }
                            }
                            value(p as usize - 1, &kids)
                        };
                        run.events.push(REvent::Reduce(p, a.clone()));
                        reduced = true;
                        let to = self.r.gotos[stack.last().unwrap().0][&pr.lhs];
                        stack.push((to, a));
                        continue;
                    }
                }
            }
            // error
            ok = false;
            let expected = self.set(self.r.expect[s]);
            let shown = match here.tok {
                Some(t) => {
                    format!("<S{} {}@{} {expected:?}>", self.map[t as usize], here.text, here.loc)
                }
                None => format!("<L Unexpected text {} at  {} {expected:?}>", here.text, here.loc),
            };
            run.events.push(REvent::Error(shown.clone()));
            if run.first_error.is_none() {
                run.first_error = Some((pos, self.r.expect[s]));
                run.reduced_before_error = reduced;
            }
            let mut found = None;
            'outer: while pos < pieces.len() {
                if let Some(t) = pieces[pos].tok {
                    for k in (0..stack.len()).rev() {
                        let c = stack[k].0;
                        if Some(c) != last_error_state && self.r.viable[c].has(t) {
                            found = Some(k);
                            break 'outer;
                        }
                    }
                }
                pos += 1;
                run.skipped += 1;
            }
            match found {
                None => {
                    run.ok = false;
                    return run;
                }
                Some(k) => {
                    run.recoveries += 1;
                    let c = stack[k].0;
                    last_error_state = Some(c);
                    stack.truncate(k + 1);
                    let to = self.l.states[c].trans[&X::N(self.l.err)];
                    stack.push((to, shown));
                }
            }
        }
    }
}

pub fn uses_bad(w: &[usize], g: &Cfg) -> bool {
    w.iter().any(|t| *t >= g.toks.len())
}

pub fn ends_with_error(g: &Cfg, p: usize) -> bool {
    g.prods[p].rhs.last() == Some(&Sym::Err)
}
