//! The real runtime (lalr1::Parser / alalr1::Parser and the lexan analyser) driven by extracted
//! tables.
use crate::tables::{Act, PArg, Tables, Term};
use lalr1::OrderedSet;
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

macro_rules! err_info {
    ($e:expr, $rt:ident) => {
        match $e {
            $rt::Error::LexicalError(e, s) => {
                ErrInfo::Lexical(e.to_string(), s.iter().map(|t| t.0).collect())
            }
            $rt::Error::SyntaxError(t, s) => ErrInfo::Syntax(
                t.tag().0,
                t.lexeme().clone(),
                t.location().to_string(),
                s.iter().map(|t| t.0).collect(),
            ),
        }
    };
}

thread_local! {
    static CUR: RefCell<Option<Rc<Tables>>> = const { RefCell::new(None) };
    static LOG: RefCell<Log> = RefCell::new(Log::default());
}

#[derive(Default)]
struct Log {
    events: Vec<Event>,
    steps: u64,
    limit: u64,
    /// answers of predicates: f(id, arguments shown, tag)
    preds: Option<PredFn>,
    hook: Option<Hook>,
    /// of each error: what it says, and what it should say
    messages: Vec<(String, String)>,
}

/// called at every reduction, with the number of the event
pub type Hook = Rc<dyn Fn(usize)>;
pub type PredFn = Rc<dyn Fn(i64, &[Attr], u16) -> bool>;

pub fn cur() -> Rc<Tables> {
    CUR.with(|c| c.borrow().clone().expect("tables"))
}

/// nested use is allowed: returns the tables that were set before
pub fn set_tables(t: Option<Rc<Tables>>) -> Option<Rc<Tables>> {
    CUR.with(|c| std::mem::replace(&mut *c.borrow_mut(), t))
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Tk(pub u16);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Nt(pub u16);

impl fmt::Display for Tk {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        CUR.with(|c| match &*c.borrow() {
            Some(t) => write!(f, "{}", t.term_disp[self.0 as usize]),
            None => write!(f, "T{}", self.0),
        })
    }
}
impl fmt::Display for Nt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        CUR.with(|c| match &*c.borrow() {
            Some(t) => write!(f, "{}", t.nt_disp[self.0 as usize]),
            None => write!(f, "N{}", self.0),
        })
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub enum Attr {
    #[default]
    Default,
    /// tag, lexeme, displayed location
    Tok(u16, String, String),
    Err(ErrInfo),
    Node(i64, Vec<Rc<Attr>>),
    Str(String),
}

impl From<lexan::Token<Tk>> for Attr {
    fn from(t: lexan::Token<Tk>) -> Attr {
        Attr::Tok(t.tag().0, t.lexeme().clone(), t.location().to_string())
    }
}
impl From<lalr1::Error<Tk>> for Attr {
    fn from(t: lalr1::Error<Tk>) -> Attr {
        Attr::Err(err_info!(&t, lalr1))
    }
}
impl From<alalr1::Error<Tk>> for Attr {
    fn from(t: alalr1::Error<Tk>) -> Attr {
        Attr::Err(err_info!(&t, alalr1))
    }
}

impl Attr {
    pub fn show(&self) -> String {
        match self {
            Attr::Default => "-".into(),
            Attr::Tok(_, l, p) => format!("{l}@{p}"),
            Attr::Err(e) => e.show(),
            Attr::Str(e) => format!("{e:?}"),
            Attr::Node(i, a) => {
                let v: Vec<String> = a.iter().map(|x| x.show()).collect();
                format!("{i}({})", v.join(" "))
            }
        }
    }
    fn eval(t: &Term, rhs: &[Attr]) -> Attr {
        match t {
            Term::Rhs(i) => rhs[*i].clone(),
            Term::Default => Attr::Default,
            Term::Str(s) => Attr::Str(s.clone()),
            Term::Call(i, a) => {
                Attr::Node(*i, a.iter().map(|x| Rc::new(Attr::eval(x, rhs))).collect())
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    /// production id, resulting attribute
    Reduce(u32, Attr),
    Error(ErrInfo),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrInfo {
    /// tag, lexeme, location, expected
    Syntax(u16, String, String, Vec<u16>),
    /// displayed lexan error, expected
    Lexical(String, Vec<u16>),
}

impl ErrInfo {
    pub fn show(&self) -> String {
        match self {
            ErrInfo::Syntax(t, l, p, e) => format!("<S{t} {l}@{p} {e:?}>"),
            ErrInfo::Lexical(m, e) => format!("<L {m} {e:?}>"),
        }
    }
    pub fn expected(&self) -> &[u16] {
        match self {
            ErrInfo::Syntax(_, _, _, e) | ErrInfo::Lexical(_, e) => e,
        }
    }
}

pub struct StepLimit;

fn step() {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.steps += 1;
        if l.steps > l.limit {
            drop(l);
            std::panic::panic_any(StepLimit);
        }
    });
}

fn log(e: Event) {
    LOG.with(|l| l.borrow_mut().events.push(e));
}

macro_rules! parsers {
    ($($name:ident)*) => {
        $(
            pub struct $name {
                pub lex: Rc<lexan::LexicalAnalyzer<Tk>>,
                pub t: Rc<Tables>,
            }
        )*
    };
}
// (LD and AD report errors in the default way)
parsers!(L A LD AD);

/// what the message of an error should say (white space apart)
macro_rules! message_of {
    ($e:expr, $rt:ident) => {
        match $e {
            $rt::Error::LexicalError(e, s) => {
                let e = match e {
                    lexan::Error::UnexpectedText(x, l) => format!("Unexpected text {x} at {l}"),
                    lexan::Error::AmbiguousMatches(tags, x, l) => {
                        format!("Unexpected text [{}] {x} at {l}", names(tags.0.iter()))
                    }
                    lexan::Error::AdvancedWhenEmpty(l) => format!("Advanced when empty at {l}"),
                };
                format!("Lexical error: {e} expected {}.", names(s.0.iter()))
            }
            $rt::Error::SyntaxError(t, s) => format!(
                "Syntax error: {}({}) at {} expected {}.",
                disp(t.tag()),
                t.lexeme(),
                t.location(),
                names(s.0.iter())
            ),
        }
    };
}

fn disp(t: &Tk) -> String {
    cur().term_disp[t.0 as usize].clone()
}

fn names<'a>(v: impl Iterator<Item = &'a Tk>) -> String {
    v.map(disp).collect::<Vec<_>>().join(", ")
}

fn message(got: String, want: String) {
    LOG.with(|l| l.borrow_mut().messages.push((got, want)));
}

impl lalr1::ReportError<Tk> for L {
    fn report_error(&mut self, error: &lalr1::Error<Tk>) {
        message(error.to_string(), message_of!(error, lalr1));
        log(Event::Error(err_info!(error, lalr1)));
    }
}
impl alalr1::ReportError<Tk> for A {
    fn report_error(&mut self, error: &alalr1::Error<Tk>) {
        message(error.to_string(), message_of!(error, alalr1));
        log(Event::Error(err_info!(error, alalr1)));
    }
}
impl lalr1::ReportError<Tk> for LD {}
impl alalr1::ReportError<Tk> for AD {}

fn sem<F: FnMut(String, String)>(pid: u32, rhs: Vec<Attr>, mut inject: F) -> Attr {
    let t = cur();
    let Some(Some(s)) = t.sem.get(pid as usize) else {
        panic!("semantic action of production {pid} panics");
    };
    for (a, b) in &s.effects {
        inject(a.clone(), b.clone());
    }
    let v = Attr::eval(&s.value, &rhs);
    log(Event::Reduce(pid, v.clone()));
    let (h, n) = LOG.with(|l| {
        let l = l.borrow();
        (l.hook.clone(), l.events.len())
    });
    if let Some(h) = h {
        h(n)
    }
    v
}

macro_rules! shared {
    ($rt:ident) => {
        fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<Tk> {
            &self.lex
        }
        fn production_data(pid: u32) -> (Nt, usize) {
            match cur().prods.get(pid as usize) {
                Some((n, k)) => (Nt(*n), *k),
                None => panic!("production data of {pid}"),
            }
        }
        fn goto_state(lhs: &Nt, s: u32) -> u32 {
            match cur().goto.get(&(lhs.0, s)) {
                Some(x) => *x,
                None => panic!("no go to for {} in state {s}", lhs.0),
            }
        }
        fn do_semantic_action<F: FnMut(String, String)>(
            &mut self,
            pid: u32,
            rhs: Vec<Attr>,
            inject: F,
        ) -> Attr {
            step();
            sem(pid, rhs, inject)
        }
        fn viable_error_recovery_states(tag: &Tk) -> OrderedSet<u32> {
            step();
            cur().viable[tag.0 as usize].iter().copied().collect()
        }
        fn error_goto_state(s: u32) -> u32 {
            match cur().err_goto.get(&s) {
                Some(x) => *x,
                None => panic!("No error go to state for {s}"),
            }
        }
        fn look_ahead_set(s: u32) -> OrderedSet<Tk> {
            cur().expect[s as usize].iter().map(|x| Tk(*x)).collect()
        }
    };
}

macro_rules! plain {
    ($name:ident) => {
        impl lalr1::Parser<Tk, Nt, Attr> for $name {
            shared!(lalr1);
            fn next_action(&self, state: u32, token: &lexan::Token<Tk>) -> lalr1::Action {
                step();
                match &self.t.action[state as usize][token.tag().0 as usize] {
                    Act::Shift(s) => lalr1::Action::Shift(*s),
                    Act::Reduce(s) => lalr1::Action::Reduce(*s),
                    Act::Accept => lalr1::Action::Accept,
                    Act::Err => lalr1::Action::SyntaxError,
                    Act::Panic(m) => panic!("{m}"),
                    Act::Test(..) => panic!("predicate in plain parser"),
                }
            }
        }
    };
}
plain!(L);
plain!(LD);

macro_rules! augmented {
    ($name:ident) => {
        impl alalr1::Parser<Tk, Nt, Attr> for $name {
            shared!(alalr1);
            fn next_action(
                &self,
                state: u32,
                stack: &alalr1::ParseStack<Tk, Nt, Attr>,
                token: &lexan::Token<Tk>,
            ) -> alalr1::Action {
                step();
                let mut a = &self.t.action[state as usize][token.tag().0 as usize];
                loop {
                    match a {
                        Act::Shift(s) => return alalr1::Action::Shift(*s),
                        Act::Reduce(s) => return alalr1::Action::Reduce(*s),
                        Act::Accept => return alalr1::Action::Accept,
                        Act::Err => return alalr1::Action::SyntaxError,
                        Act::Panic(m) => panic!("{m}"),
                        Act::Test(args, t, f) => {
                            let mut id = -1;
                            let mut attrs = vec![];
                            let mut tag = u16::MAX;
                            for x in args {
                                match x {
                                    PArg::Int(i) => id = *i,
                                    PArg::Stack(n) => attrs.push(stack.at_len_minus_n(*n).clone()),
                                    PArg::Tag(x) => tag = *x,
                                    PArg::Other(s) => panic!("predicate argument {s}"),
                                }
                            }
                            let p = LOG.with(|l| l.borrow().preds.clone());
                            let v = match p {
                                Some(p) => p(id, &attrs, tag),
                                None => true,
                            };
                            a = if v { t } else { f };
                        }
                    }
                }
            }
        }
    };
}
augmented!(A);
augmented!(AD);

pub fn analyzer(t: &Tables) -> lexan::LexicalAnalyzer<Tk> {
    let l: Vec<(Tk, &str)> = t.lits.iter().map(|(a, b)| (Tk(*a), b.as_str())).collect();
    let r: Vec<(Tk, &str)> = t.regs.iter().map(|(a, b)| (Tk(*a), b.as_str())).collect();
    let s: Vec<&str> = t.skips.iter().map(|a| a.as_str()).collect();
    lexan::LexicalAnalyzer::new(&l, &r, &s, Tk(t.end))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Parsed {
    pub events: Vec<Event>,
    pub result: Result<(), ErrInfo>,
    pub steps: u64,
    /// of each error: its message, and what it should be
    pub messages: Vec<(String, String)>,
}

impl Parsed {
    pub fn errors(&self) -> Vec<&ErrInfo> {
        self.events
            .iter()
            .filter_map(|e| match e {
                Event::Error(e) => Some(e),
                _ => None,
            })
            .collect()
    }
    pub fn reductions(&self) -> Vec<u32> {
        self.events
            .iter()
            .filter_map(|e| match e {
                Event::Reduce(p, _) => Some(*p),
                _ => None,
            })
            .collect()
    }
    /// the attribute produced by the last reduction
    pub fn root(&self) -> Option<&Attr> {
        self.events.iter().rev().find_map(|e| match e {
            Event::Reduce(_, a) => Some(a),
            _ => None,
        })
    }
}

/// A parser ready to parse texts
pub struct Ready {
    pub t: Rc<Tables>,
    pub lex: Rc<lexan::LexicalAnalyzer<Tk>>,
    pub limit: u64,
    pub preds: Option<PredFn>,
}

impl Ready {
    pub fn new(t: Tables) -> Ready {
        let t = Rc::new(t);
        let old = set_tables(Some(t.clone()));
        let lex = Rc::new(analyzer(&t));
        set_tables(old);
        Ready {
            lex,
            t,
            limit: 20_000,
            preds: None,
        }
    }

    /// Err: the parse panicked (message) or went past the step limit
    pub fn parse(&self, text: &str, label: &str) -> Result<Parsed, String> {
        self.parse_seq(&[text], label, None).pop().unwrap()
    }

    /// parses with a parser that reports errors in the default way
    pub fn parse_default(&self, text: &str, label: &str) -> Result<Parsed, String> {
        let (lex, t) = (self.lex.clone(), self.t.clone());
        if self.t.aug {
            let mut p = AD { lex, t };
            self.guarded(None, || match alalr1::Parser::parse_text(&mut p, text, label) {
                Ok(()) => Ok(()),
                Err(e) => Err(err_info!(&e, alalr1)),
            })
        } else {
            let mut p = LD { lex, t };
            self.guarded(None, || match lalr1::Parser::parse_text(&mut p, text, label) {
                Ok(()) => Ok(()),
                Err(e) => Err(err_info!(&e, lalr1)),
            })
        }
    }

    /// parses the texts, one after the other, with the same parser object
    pub fn parse_seq(
        &self,
        texts: &[&str],
        label: &str,
        hook: Option<Hook>,
    ) -> Vec<Result<Parsed, String>> {
        let mut a = A {
            lex: self.lex.clone(),
            t: self.t.clone(),
        };
        let mut l = L {
            lex: self.lex.clone(),
            t: self.t.clone(),
        };
        texts
            .iter()
            .map(|t| {
                let hook = hook.clone();
                if self.t.aug {
                    self.guarded(hook, || match alalr1::Parser::parse_text(&mut a, t, label) {
                        Ok(()) => Ok(()),
                        Err(e) => Err(err_info!(&e, alalr1)),
                    })
                } else {
                    self.guarded(hook, || match lalr1::Parser::parse_text(&mut l, t, label) {
                        Ok(()) => Ok(()),
                        Err(e) => Err(err_info!(&e, lalr1)),
                    })
                }
            })
            .collect()
    }

    fn guarded(
        &self,
        hook: Option<Hook>,
        f: impl FnOnce() -> Result<(), ErrInfo>,
    ) -> Result<Parsed, String> {
        let old = set_tables(Some(self.t.clone()));
        let old_log = LOG.with(|l| {
            std::mem::replace(
                &mut *l.borrow_mut(),
                Log {
                    limit: self.limit,
                    preds: self.preds.clone(),
                    hook,
                    ..Log::default()
                },
            )
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let log = LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), old_log));
        set_tables(old);
        match r {
            Ok(result) => Ok(Parsed {
                events: log.events,
                result,
                steps: log.steps,
                messages: log.messages,
            }),
            Err(e) => {
                if e.downcast_ref::<StepLimit>().is_some() {
                    Err(format!("does not end ({} steps)", self.limit))
                } else {
                    Err(format!(
                        "panic: {}",
                        crate::ctx::LAST_PANIC.with(|p| p.borrow().clone())
                    ))
                }
            }
        }
    }
}
