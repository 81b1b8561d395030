//! Small helpers: JSON text, case identification, counters, worker processes.
use std::collections::BTreeMap;
use std::fmt::Write as _;

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Counters measured by a run (merged over workers by addition, except for keys starting with
/// "max_" which are merged by maximum).
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    sampled: u64,
}

impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        match self.n.get_mut(k) {
            Some(x) => {
                if k.starts_with("max_") {
                    *x = (*x).max(v)
                } else {
                    *x += v
                }
            }
            None => {
                self.n.insert(k.to_string(), v);
            }
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.sampled += 1;
        if matches!(self.sampled, 1 | 40 | 700) {
            let s = f();
            self.samples.push(if s.chars().count() > 600 { s.chars().take(600).collect::<String>() + " ..." } else { s })
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in o.n.iter() {
            self.add(k, *v);
        }
        for s in o.samples.iter() {
            if self.samples.len() < 8 {
                self.samples.push(s.clone())
            }
        }
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    /// what is wrong (one line)
    pub what: String,
    /// everything needed to see it (spec, input, expected, actual)
    pub detail: String,
    /// stable key of the failing input, used for known findings
    pub key: String,
}

impl Violation {
    pub fn new(what: impl Into<String>, detail: impl Into<String>, key: impl Into<String>) -> Self {
        Violation {
            what: what.into(),
            detail: detail.into(),
            key: key.into(),
        }
    }
}

pub type CheckResult = Result<(), Violation>;

/// FNV, for deterministic hashes
pub fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// all subsets of 0..n of size exactly k, in lexicographic order
pub fn combos(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn rec(s: usize, n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        let mut i = s;
        while i + k <= n {
            cur.push(i);
            rec(i + 1, n, k - 1, cur, out);
            cur.pop();
            i += 1;
        }
    }
    let mut out = vec![];
    rec(0, n, k, &mut vec![], &mut out);
    out
}

/// all sequences (with order, without repetition) of k out of 0..n
pub fn arrangements(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, k: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if k == 0 {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(n, k - 1, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(n, k, &mut vec![], &mut out);
    out
}

/// all strings over `alpha` of length 0..=k, shortest first
pub fn strings<T: Clone>(alpha: &[T], k: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut start = 0;
    for _ in 0..k {
        let end = out.len();
        for i in start..end {
            for a in alpha {
                let mut v = out[i].clone();
                v.push(a.clone());
                out.push(v);
            }
        }
        start = end;
    }
    out
}
