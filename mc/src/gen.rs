//! Running the real generators in this process.
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    Plain,
    Aug,
}

impl Which {
    pub fn name(&self) -> &'static str {
        match self {
            Which::Plain => "lalr1",
            Which::Aug => "alalr1",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Refusal {
    /// displayed error of the specification parser
    Parse(String),
    Errors(u32),
    Undefined(u32),
    Sr(u32, u32),
    Rr(u32, u32),
    Other(String),
}

#[derive(Clone, Debug)]
pub struct Output {
    pub code: String,
    pub states: String,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Opts {
    pub ign_sr: bool,
    pub ign_rr: bool,
    pub states: bool,
}

thread_local! {
    static TOLD: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// what the last refusal for conflicts said about the states
pub fn told() -> String {
    TOLD.with(|x| std::mem::take(&mut *x.borrow_mut()))
}

macro_rules! gen_impl {
    ($name:ident, $lib:ident) => {
        #[allow(unreachable_patterns)]
        pub fn $name(
            text: &str,
            label: &str,
            o: Opts,
            dir: &Path,
        ) -> Result<Output, Refusal> {
            use $lib::grammar::{Error, Grammar, Specification};
            let spec =
                Specification::new(text, label).map_err(|e| Refusal::Parse(e.to_string()))?;
            let g = Grammar::try_from((spec, o.ign_sr, o.ign_rr)).map_err(|e| match e {
                Error::TooManyErrors(n) => Refusal::Errors(n),
                Error::UndefinedSymbols(n) => Refusal::Undefined(n),
                Error::UnexpectedSRConflicts(a, b, t) => {
                    TOLD.with(|x| *x.borrow_mut() = t);
                    Refusal::Sr(a, b)
                },
                Error::UnexpectedRRConflicts(a, b, t) => {
                    TOLD.with(|x| *x.borrow_mut() = t);
                    Refusal::Rr(a, b)
                },
                other => Refusal::Other(other.to_string()),
            })?;
            let c = dir.join("g.rs");
            let s = dir.join("g.states");
            g.write_parser_code_to_file(&c).map_err(|e| Refusal::Other(e.to_string()))?;
            let code = std::fs::read_to_string(&c).map_err(|e| Refusal::Other(e.to_string()))?;
            let mut states = String::new();
            if o.states {
                g.write_description(&s).map_err(|e| Refusal::Other(e.to_string()))?;
                states =
                    std::fs::read_to_string(&s).map_err(|e| Refusal::Other(e.to_string()))?;
            }
            Ok(Output { code, states })
        }
    };
}
gen_impl!(plain, lalr1_lib);
gen_impl!(aug, alalr1_lib);

pub fn generate(
    w: Which,
    text: &str,
    label: &str,
    o: Opts,
    dir: &Path,
) -> Result<Output, Refusal> {
    match w {
        Which::Plain => plain(text, label, o, dir),
        Which::Aug => aug(text, label, o, dir),
    }
}
