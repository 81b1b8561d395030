//! Tables of generated code which the evaluator does not understand: compiled with rustc and asked.
//! Slow, so that there is a limit on the time spent; what is beyond it is left out and counted.
use crate::compile::{run, tables, Failed, Unit};
use crate::gen::Which;
use crate::tables::Tables;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// thrown by panic_any() for a case that is left out
pub struct Skip;

pub static COMPILED: AtomicU64 = AtomicU64::new(0);

/// where the code's environment comes from
pub struct Src<'a> {
    pub attr: &'a str,
    pub target: &'a str,
    /// the code has no preamble
    pub wrap: bool,
}

/// for trying this way out
pub fn forced() -> bool {
    static F: OnceLock<bool> = OnceLock::new();
    *F.get_or_init(|| std::env::var("MC_FALLBACK").is_ok())
}

pub fn compiled(which: Which, code: &str, src: &Src, dir: &Path) -> Result<Tables, String> {
    static START: OnceLock<Instant> = OnceLock::new();
    if START.get_or_init(Instant::now).elapsed() > Duration::from_secs(250) {
        std::panic::panic_any(Skip);
    }
    crate::ctx::beat();
    let mut u = Unit::new(which, code, src.attr, src.target, src.wrap);
    u.record = true;
    u.lens = vec![usize::MAX];
    let r = run(std::slice::from_ref(&u), dir);
    crate::ctx::beat();
    COMPILED.fetch_add(1, Ordering::Relaxed);
    match r {
        Ok(l) => match tables(code, which == Which::Aug, &l[0]) {
            // (the definitions may come in another way)
            Some(t) if code.contains("lexan::LexicalAnalyzer::new(") => Ok(t),
            _ => std::panic::panic_any(Skip),
        },
        Err(Failed::Rustc(e)) => Err(format!("does not compile: {e}")),
        Err(Failed::Run(e)) => Err(e),
    }
}

/// by the evaluator or else by rustc
pub fn extract(which: Which, code: &str, src: &Src, dir: &Path) -> Result<Tables, String> {
    if !forced() {
        if let Ok(t) = Tables::extract(code, which == Which::Aug) {
            return Ok(t);
        }
    }
    compiled(which, code, src, dir)
}
