// Support for compiled generated parsers: one attribute type, predicates answered by a script, and
// dumps of everything a generated parser says.
#![allow(dead_code)]
use std::cell::{Cell, RefCell};
use std::fmt::{Debug, Display, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Attr(pub String);

impl Default for Attr {
    fn default() -> Attr {
        Attr("-".into())
    }
}

pub fn act(i: i64, v: Vec<Attr>) -> Attr {
    let s: Vec<String> = v.into_iter().map(|x| x.0).collect();
    let a = format!("{i}({})", s.join(" "));
    event(format!("R\t{a}"));
    Attr(a)
}

thread_local! {
    static SCRIPT: RefCell<(Vec<bool>, Vec<String>)> = const { RefCell::new((vec![], vec![])) };
    static EVENTS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

fn event(s: String) {
    EVENTS.with(|e| e.borrow_mut().push(s));
}

pub fn pr<T: Debug>(id: i64, v: Vec<Attr>, tag: T) -> bool {
    let s: Vec<String> = v.into_iter().map(|x| x.0).collect();
    SCRIPT.with(|c| {
        let mut c = c.borrow_mut();
        let n = c.1.len();
        c.1.push(format!("{id} {} {tag:?}", s.join(" ")));
        c.0.get(n).copied().unwrap_or(false)
    })
}

fn set<'a, T: Debug + 'a>(i: impl Iterator<Item = &'a T>) -> String {
    let v: Vec<String> = i.map(|x| format!("{x:?}")).collect();
    v.join(" ")
}

macro_rules! from {
    ($rt:ident) => {
        impl<T: Ord + Copy + Debug + Display + Eq> From<$rt::Error<T>> for Attr {
            fn from(e: $rt::Error<T>) -> Attr {
                Attr(match &e {
                    $rt::Error::LexicalError(e, s) => format!("<L {e} [{}]>", set(s.iter())),
                    $rt::Error::SyntaxError(t, s) => format!(
                        "<S {:?} {}@{} [{}]>",
                        t.tag(),
                        t.lexeme(),
                        t.location(),
                        set(s.iter())
                    ),
                })
            }
        }
        impl<T: Ord + Copy + Debug + Display + Eq> Report<$rt::Error<T>> for () {
            fn report(e: &$rt::Error<T>) {
                event(format!("E\t{}", Attr::from(e.clone()).0));
            }
        }
    };
}
pub trait Report<E> {
    fn report(e: &E);
}
from!(lalr1);
from!(alalr1);

impl<T: Ord + Copy + Debug + Display + Eq> From<lexan::Token<T>> for Attr {
    fn from(t: lexan::Token<T>) -> Attr {
        Attr(format!("{}@{}", t.lexeme(), t.location()))
    }
}

#[macro_export]
macro_rules! target {
    ($n:ident) => {
        #[derive(Default)]
        pub struct $n;
        impl<T: Ord + Copy + std::fmt::Debug + std::fmt::Display + Eq> lalr1::ReportError<T> for $n {
            fn report_error(&mut self, e: &lalr1::Error<T>) {
                <() as $crate::rt::Report<lalr1::Error<T>>>::report(e)
            }
        }
        impl<T: Ord + Copy + std::fmt::Debug + std::fmt::Display + Eq> alalr1::ReportError<T> for $n {
            fn report_error(&mut self, e: &alalr1::Error<T>) {
                <() as $crate::rt::Report<alalr1::Error<T>>>::report(e)
            }
        }
    };
}

pub struct Desc<'a> {
    pub key: usize,
    /// right hand side lengths of the productions (for the actions); empty: do not run the actions
    pub lens: &'a [usize],  // [usize::MAX]: as the code says
    pub texts: &'a [&'a str],
    /// print the locations' label with this
    pub label: &'a str,
}

pub const DEPTH: usize = 260;
const LIMIT: u32 = 20_000;

fn esc(s: &str) -> String {
    format!("{s:?}")
}

fn panics<R>(f: impl FnOnce() -> R) -> Option<R> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

/// every way a function that asks predicates can go
fn tree(f: &dyn Fn() -> String, script: Vec<bool>) -> String {
    if script.len() > 12 {
        return "!endless".into();
    }
    SCRIPT.with(|c| *c.borrow_mut() = (script.clone(), vec![]));
    let r = panics(f);
    let asked = SCRIPT.with(|c| c.borrow().1.clone());
    if asked.len() > script.len() {
        let mut s = script.clone();
        s.push(true);
        let t = tree(f, s.clone());
        *s.last_mut().unwrap() = false;
        let e = tree(f, s);
        return format!("?{}?({t})({e})", asked[script.len()]);
    }
    r.unwrap_or_else(|| "p".into())
}

macro_rules! action {
    ($rt:ident, $a:expr) => {
        match $a {
            $rt::Action::Shift(s) => format!("s{s}"),
            $rt::Action::Reduce(s) => format!("r{s}"),
            $rt::Action::Accept => "a".to_string(),
            $rt::Action::SyntaxError => "e".to_string(),
        }
    };
}

macro_rules! dump {
    ($name:ident, $rt:ident, $actions:expr) => {
        pub fn $name<P, T, N>(p: &mut P, terms: &[T], nts: &[N], d: &Desc)
        where
            T: Ord + Copy + Debug + Display + Eq,
            N: Ord + Copy + Debug + Display + Eq,
            P: $rt::Parser<T, N, Attr> + $rt::ReportError<T> + Default,
        {
            let mut o = String::new();
            let _ = writeln!(o, "M\t{}", d.key);
            for t in terms {
                let _ = writeln!(o, "T\t{t:?}\t{}", esc(&t.to_string()));
            }
            for t in nts {
                let _ = writeln!(o, "N\t{t:?}\t{}", esc(&t.to_string()));
            }
            let _ = panics(|| {
                p.lexical_analyzer();
            });
            for l in definitions() {
                let _ = writeln!(o, "{l}");
            }
            let mut nstates = 0;
            // the actions, until all of a state's panic
            let mut rows: Vec<Vec<(T, String)>> = vec![];
            for t in terms {
                let row: Vec<(T, String)> = $actions(p, analyzer(*t, terms), terms);
                nstates = nstates.max(row.len());
                rows.push(row);
            }
            for s in 0..nstates {
                for row in &rows {
                    if let Some((t, a)) = row.get(s) {
                        let _ = writeln!(o, "A\t{s}\t{t:?}\t{a}");
                    }
                }
            }
            for s in 0..nstates as u32 {
                for n in nts {
                    if let Some(x) = panics(|| P::goto_state(n, s)) {
                        let _ = writeln!(o, "G\t{s}\t{n:?}\t{x}");
                    }
                }
                if let Some(x) = panics(|| P::look_ahead_set(s)) {
                    let _ = writeln!(o, "L\t{s}\t{}", set(x.iter()));
                }
                if let Some(x) = panics(|| P::error_goto_state(s)) {
                    let _ = writeln!(o, "X\t{s}\t{x}");
                }
            }
            for t in terms {
                if let Some(x) = panics(|| P::viable_error_recovery_states(t)) {
                    let _ = writeln!(o, "V\t{t:?}\t{}", set(x.iter()));
                }
            }
            let mut lens = d.lens.to_vec();
            if lens == [usize::MAX] {
                lens.clear();
            }
            for pid in 0..LIMIT {
                let Some((n, k)) = panics(|| P::production_data(pid)) else {
                    break;
                };
                if d.lens == [usize::MAX] {
                    lens.push(k);
                }
                let _ = writeln!(o, "P\t{pid}\t{n:?}\t{k}");
            }
            for (pid, n) in lens.iter().enumerate() {
                let rhs: Vec<Attr> = (1..=*n).map(|i| Attr(format!("r{i}"))).collect();
                let mut inj: Vec<(String, String)> = vec![];
                EVENTS.with(|e| e.borrow_mut().clear());
                let v = panics(|| p.do_semantic_action(pid as u32, rhs, |a, b| inj.push((a, b))));
                inj.retain(|(a, b)| !(a.is_empty() && b.is_empty()));
                let _ = writeln!(o, "S\t{pid}\t{}", v.map(|x| esc(&x.0)).unwrap_or("!".into()));
                for (a, b) in inj {
                    let _ = writeln!(o, "I\t{pid}\t{}\t{}", esc(&a), esc(&b));
                }
            }
            for (i, t) in d.texts.iter().enumerate() {
                EVENTS.with(|e| e.borrow_mut().clear());
                SCRIPT.with(|c| *c.borrow_mut() = (vec![], vec![]));
                let mut q = P::default();
                let r = panics(|| $rt::Parser::parse_text(&mut q, t, d.label).is_ok());
                for e in EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut())) {
                    let _ = writeln!(o, "Z\t{i}\t{}", esc(&e));
                }
                let _ = writeln!(o, "Z\t{i}\t{r:?}");
            }
            print!("{o}");
        }
    };
}

/// an analyser whose first token in SAMPLE, or whose end, is t
fn analyzer<T: Ord + Copy + Debug + Display + Eq>(t: T, terms: &[T]) -> lexan::LexicalAnalyzer<T> {
    if t == terms[0] {
        lexan::LexicalAnalyzer::new(&[], &[], &[], t)
    } else {
        lexan::LexicalAnalyzer::new(&[(t, "x")], &[], &[], terms[0])
    }
}

type Defs = (Vec<(String, String)>, Vec<(String, String)>, Vec<String>, String);
thread_local! {
    static DEFS: RefCell<Option<Defs>> = const { RefCell::new(None) };
}

/// put in the place of LexicalAnalyzer::new by those who want to know the definitions
pub fn recorded<'a, T: Ord + Copy + Debug + Display + Eq>(
    l: &[(T, &'a str)],
    r: &[(T, &'a str)],
    s: &[&'a str],
    end: T,
) -> lexan::LexicalAnalyzer<T> {
    let f = |v: &[(T, &'a str)]| v.iter().map(|(t, s)| (format!("{t:?}"), s.to_string())).collect();
    let d = (f(l), f(r), s.iter().map(|s| s.to_string()).collect(), format!("{end:?}"));
    DEFS.with(|x| *x.borrow_mut() = Some(d));
    lexan::LexicalAnalyzer::new(l, r, s, end)
}

fn definitions() -> Vec<String> {
    let mut o = vec![];
    if let Some((l, r, s, e)) = DEFS.with(|x| x.borrow_mut().take()) {
        l.iter().for_each(|(t, x)| o.push(format!("D\tl\t{t}\t{}", esc(x))));
        r.iter().for_each(|(t, x)| o.push(format!("D\tr\t{t}\t{}", esc(x))));
        s.iter().for_each(|x| o.push(format!("D\ts\t-\t{}", esc(x))));
        o.push(format!("D\te\t{e}\t"));
    }
    o
}

fn plain_actions<P, T, N>(p: &mut P, l: lexan::LexicalAnalyzer<T>, terms: &[T]) -> Vec<(T, String)>
where
    T: Ord + Copy + Debug + Display + Eq,
    N: Ord + Copy + Debug + Display + Eq,
    P: lalr1::Parser<T, N, Attr> + lalr1::ReportError<T>,
{
    let t = match l.token_stream("x", "t").front() {
        Ok(t) => t,
        Err(_) => match l.token_stream("", "t").front() {
            Ok(t) => t,
            Err(_) => return vec![],
        },
    };
    let mut row = vec![];
    for s in 0..LIMIT {
        let a = tree(&|| action!(lalr1, p.next_action(s, &t)), vec![]);
        if a == "p" {
            break;
        }
        row.push((*t.tag(), a));
    }
    row
}
dump!(dump_plain, lalr1, plain_actions::<P, T, N>);

/// A parser that pushes DEPTH attributes and then asks the parser being looked at, with the parse
/// stack at hand, for its action in every state.
struct Probe<'a, P, T: Ord + Copy + Debug + Display> {
    p: &'a P,
    l: lexan::LexicalAnalyzer<T>,
    depth: Cell<usize>,
    row: RefCell<Vec<(T, String)>>,
}

impl<P, T: Ord + Copy + Debug + Display + Eq> alalr1::ReportError<T> for Probe<'_, P, T> {
    fn report_error(&mut self, _: &alalr1::Error<T>) {}
}

impl<P, T, N> alalr1::Parser<T, N, Attr> for Probe<'_, P, T>
where
    T: Ord + Copy + Debug + Display + Eq,
    N: Ord + Copy + Debug + Display + Eq,
    P: alalr1::Parser<T, N, Attr>,
{
    fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<T> {
        &self.l
    }
    fn next_action(
        &self,
        _: u32,
        stack: &alalr1::ParseStack<T, N, Attr>,
        token: &lexan::Token<T>,
    ) -> alalr1::Action {
        if self.depth.get() < DEPTH {
            self.depth.set(self.depth.get() + 1);
            return alalr1::Action::Reduce(self.depth.get() as u32);
        }
        for s in 0..LIMIT {
            let a = tree(&|| action!(alalr1, self.p.next_action(s, stack, token)), vec![]);
            if a == "p" {
                break;
            }
            self.row.borrow_mut().push((*token.tag(), a));
        }
        alalr1::Action::Accept
    }
    fn production_data(_: u32) -> (N, usize) {
        (P::production_data(0).0, 0)
    }
    fn goto_state(_: &N, _: u32) -> u32 {
        0
    }
    fn do_semantic_action<F: FnMut(String, String)>(
        &mut self,
        pid: u32,
        _: Vec<Attr>,
        mut inject: F,
    ) -> Attr {
        inject(String::new(), String::new());
        // named by the distance from the top of the stack in the end
        Attr(format!("a{}", DEPTH + 1 - pid as usize))
    }
    fn viable_error_recovery_states(_: &T) -> lalr1::OrderedSet<u32> {
        lalr1::OrderedSet::new()
    }
    fn look_ahead_set(_: u32) -> lalr1::OrderedSet<T> {
        lalr1::OrderedSet::new()
    }
}

fn aug_actions<P, T, N>(p: &mut P, l: lexan::LexicalAnalyzer<T>, terms: &[T]) -> Vec<(T, String)>
where
    T: Ord + Copy + Debug + Display + Eq,
    N: Ord + Copy + Debug + Display + Eq,
    P: alalr1::Parser<T, N, Attr>,
{
    let text = if l.token_stream("x", "t").front().is_ok() { "x" } else { "" };
    let mut probe = Probe {
        p: &*p,
        l,
        depth: Cell::new(0),
        row: RefCell::new(vec![]),
    };
    let _ = alalr1::Parser::<T, N, Attr>::parse_text(&mut probe, text, "t");
    probe.row.into_inner()
}
dump!(dump_aug, alalr1, aug_actions::<P, T, N>);
