//! The meaning of a generated parser as tables.
use crate::interp::{Program, Run, Stop, V};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum PArg {
    /// attribute n from the top of the stack
    Stack(usize),
    /// the look ahead's tag
    Tag(u16),
    Int(i64),
    Other(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Act {
    Shift(u32),
    Reduce(u32),
    Accept,
    Err,
    /// predicate call, and what to do if it is true / false
    Test(Vec<PArg>, Box<Act>, Box<Act>),
    /// the generated code panics for this argument
    Panic(String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Term {
    Rhs(usize),
    Default,
    Call(i64, Vec<Term>),
    Str(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sem {
    pub effects: Vec<(String, String)>,
    pub value: Term,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Tables {
    pub aug: bool,
    pub terms: Vec<String>,
    pub term_disp: Vec<String>,
    pub nts: Vec<String>,
    pub nt_disp: Vec<String>,
    pub action: Vec<Vec<Act>>,
    pub goto: BTreeMap<(u16, u32), u32>,
    /// by production id
    pub prods: Vec<(u16, usize)>,
    pub expect: Vec<BTreeSet<u16>>,
    pub viable: Vec<BTreeSet<u32>>,
    pub err_goto: BTreeMap<u32, u32>,
    pub sem: Vec<Option<Sem>>,
    pub lits: Vec<(u16, String)>,
    pub regs: Vec<(u16, String)>,
    pub skips: Vec<String>,
    pub end: u16,
    pub trait_path: String,
    pub self_ty: String,
}

/// the evaluator could not make sense of the generated code
#[derive(Debug)]
pub struct NotUnderstood(pub String);

fn to_act(v: V) -> Result<Act, NotUnderstood> {
    match v {
        V::Data(n, a) => match (n.as_str(), &a[..]) {
            ("Shift", [V::Int(s)]) => Ok(Act::Shift(*s as u32)),
            ("Reduce", [V::Int(s)]) => Ok(Act::Reduce(*s as u32)),
            ("Accept", []) => Ok(Act::Accept),
            ("SyntaxError", []) => Ok(Act::Err),
            _ => Err(NotUnderstood(format!("action {n}"))),
        },
        v => Err(NotUnderstood(format!("action {v:?}"))),
    }
}

fn to_term(v: V) -> Result<Term, NotUnderstood> {
    Ok(match v {
        V::Rhs(i) => Term::Rhs(i),
        V::Default => Term::Default,
        V::Str(s) => Term::Str(s),
        V::Call(_, a) => {
            let mut it = a.into_iter();
            let Some(V::Int(i)) = it.next() else {
                return Err(NotUnderstood("act without number".into()));
            };
            let mut args = vec![];
            match it.next() {
                Some(V::List(l)) => {
                    for x in l {
                        args.push(to_term(x)?);
                    }
                }
                Some(x) => args.push(to_term(x)?),
                None => (),
            }
            Term::Call(i, args)
        }
        v => return Err(NotUnderstood(format!("attribute {v:?}"))),
    })
}

fn explore(
    p: &Program,
    name: &str,
    args: &[V],
    script: Vec<bool>,
) -> Result<Act, NotUnderstood> {
    let mut run = Run {
        script: script.clone(),
        ..Run::default()
    };
    if script.len() > 12 {
        return Err(NotUnderstood("too many predicate calls".into()));
    }
    let r = p.call(&mut run, name, args.to_vec());
    if run.asked.len() > script.len() {
        let mut pa = vec![];
        fn flat(v: V, o: &mut Vec<PArg>) {
            match v {
                V::Stack(n) => o.push(PArg::Stack(n)),
                V::Term(n) => o.push(PArg::Tag(n)),
                V::Int(n) => o.push(PArg::Int(n)),
                V::List(l) => l.into_iter().for_each(|x| flat(x, o)),
                v => o.push(PArg::Other(format!("{v:?}"))),
            }
        }
        for v in run.asked[script.len()].1.clone() {
            flat(v, &mut pa);
        }
        let mut s = script.clone();
        s.push(true);
        let t = explore(p, name, args, s.clone())?;
        *s.last_mut().unwrap() = false;
        let f = explore(p, name, args, s)?;
        return Ok(Act::Test(pa, Box::new(t), Box::new(f)));
    }
    match r {
        Ok(v) => to_act(v),
        Err(Stop::Panic(m)) => Ok(Act::Panic(m)),
        Err(Stop::Unsupported(m)) => Err(NotUnderstood(m)),
        Err(Stop::Return(_)) => Err(NotUnderstood("return".into())),
    }
}

impl Tables {
    pub fn extract(code: &str, aug: bool) -> Result<Tables, NotUnderstood> {
        Tables::extract_some(code, aug, true)
    }

    /// without the semantic actions if `actions` is false
    pub fn extract_some(code: &str, aug: bool, actions: bool) -> Result<Tables, NotUnderstood> {
        let p = Program::parse(code).map_err(NotUnderstood)?;
        let mut t = Tables {
            aug,
            terms: p.terms.clone(),
            nts: p.nts.clone(),
            trait_path: p.trait_path.clone(),
            self_ty: p.self_ty.clone(),
            ..Tables::default()
        };
        let nu = |e: Stop| NotUnderstood(format!("{e:?}"));
        for i in 0..p.terms.len() {
            t.term_disp.push(p.display("AATerminal", V::Term(i as u16)).map_err(nu)?);
        }
        for i in 0..p.nts.len() {
            t.nt_disp.push(p.display("AANonTerminal", V::Nt(i as u16)).map_err(nu)?);
        }
        let (l, r, s, e) = p.lexer_defs().map_err(nu)?;
        t.lits = l;
        t.regs = r;
        t.skips = s;
        t.end = e;
        // actions
        let mut state = 0u32;
        loop {
            let mut row = vec![];
            for tag in 0..p.terms.len() as u16 {
                let mut args = vec![V::Myself, V::Int(state as i64)];
                if aug {
                    args.push(V::Attrs);
                }
                args.push(V::Token(tag));
                row.push(explore(&p, "next_action", &args, vec![])?);
            }
            if row.iter().all(|a| matches!(a, Act::Panic(_))) {
                break;
            }
            t.action.push(row);
            state += 1;
            if state > 5000 {
                return Err(NotUnderstood("endless states".into()));
            }
        }
        for pid in 0.. {
            let mut run = Run::default();
            match p.call(&mut run, "production_data", vec![V::Int(pid)]) {
                Ok(V::Tuple(v)) => match &v[..] {
                    [V::Nt(n), V::Int(k)] => t.prods.push((*n, *k as usize)),
                    _ => return Err(NotUnderstood("production data".into())),
                },
                Ok(_) => return Err(NotUnderstood("production data".into())),
                Err(Stop::Panic(_)) => break,
                Err(e) => return Err(nu(e)),
            }
            if pid > 5000 {
                return Err(NotUnderstood("endless productions".into()));
            }
        }
        for s in 0..state {
            for n in 0..p.nts.len() as u16 {
                let mut run = Run::default();
                match p.call(&mut run, "goto_state", vec![V::Nt(n), V::Int(s as i64)]) {
                    Ok(V::Int(x)) => {
                        t.goto.insert((n, s), x as u32);
                    }
                    Ok(v) => return Err(NotUnderstood(format!("go to {v:?}"))),
                    Err(Stop::Panic(_)) => (),
                    Err(e) => return Err(nu(e)),
                }
            }
            let mut run = Run::default();
            match p.call(&mut run, "look_ahead_set", vec![V::Int(s as i64)]) {
                Ok(V::Set(x)) => {
                    let mut o = BTreeSet::new();
                    for v in x {
                        match v {
                            V::Term(k) => {
                                o.insert(k);
                            }
                            _ => return Err(NotUnderstood("look ahead set".into())),
                        }
                    }
                    t.expect.push(o);
                }
                Ok(_) => return Err(NotUnderstood("look ahead set".into())),
                Err(e) => return Err(nu(e)),
            }
            if p.has_fn("error_goto_state") {
                let mut run = Run::default();
                match p.call(&mut run, "error_goto_state", vec![V::Int(s as i64)]) {
                    Ok(V::Int(x)) => {
                        t.err_goto.insert(s, x as u32);
                    }
                    Ok(_) => return Err(NotUnderstood("error go to".into())),
                    Err(Stop::Panic(_)) => (),
                    Err(e) => return Err(nu(e)),
                }
            }
        }
        for tag in 0..p.terms.len() as u16 {
            let mut run = Run::default();
            match p.call(&mut run, "viable_error_recovery_states", vec![V::Term(tag)]) {
                Ok(V::Set(x)) => {
                    let mut o = BTreeSet::new();
                    for v in x {
                        match v {
                            V::Int(k) => {
                                o.insert(k as u32);
                            }
                            _ => return Err(NotUnderstood("recovery states".into())),
                        }
                    }
                    t.viable.push(o);
                }
                Ok(_) => return Err(NotUnderstood("recovery states".into())),
                Err(e) => return Err(nu(e)),
            }
        }
        for pid in 0..t.prods.len() {
            let n = t.prods[pid].1;
            if !actions {
                t.sem.push(Some(Sem {
                    effects: vec![],
                    value: Term::Default,
                }));
                continue;
            }
            let mut run = Run::default();
            let rhs: Vec<V> = (0..n).map(V::Rhs).collect();
            let r = p.call(
                &mut run,
                "do_semantic_action",
                vec![V::Myself, V::Int(pid as i64), V::List(rhs), V::Inject],
            );
            match r {
                Ok(v) => {
                    let mut effects = vec![];
                    for (a, b) in run.effects {
                        match (a, b) {
                            (V::Str(a), V::Str(b)) => effects.push((a, b)),
                            _ => return Err(NotUnderstood("injection".into())),
                        }
                    }
                    t.sem.push(Some(Sem {
                        effects,
                        value: to_term(v)?,
                    }));
                }
                Err(Stop::Panic(_)) => t.sem.push(None),
                Err(e) => return Err(nu(e)),
            }
        }
        Ok(t)
    }

    pub fn term(&self, name: &str) -> Option<u16> {
        self.terms.iter().position(|x| x == name).map(|x| x as u16)
    }

    pub fn nt(&self, name: &str) -> Option<u16> {
        self.nts.iter().position(|x| x == name).map(|x| x as u16)
    }
}
