//! C28: the ordered set of tokens.
use crate::ctx::Ctx;
use crate::util::*;
use lalr1::OrderedSet;
use std::collections::hash_map::DefaultHasher;
use std::fmt::{self, Display};
use std::hash::{Hash, Hasher};

/// displayed in an order that is not that of the elements
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct El(u16);

impl Display for El {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 {
            0 => write!(f, "z"),
            1 => write!(f, "\",\""),
            2 => write!(f, "a, b"),
            3 => write!(f, ""),
            n => write!(f, "T{}", 9999 - n),
        }
    }
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// everything that can be seen of a set, against a sorted list of its elements
fn observe(s: &OrderedSet<El>, want: &[u16], n: u16) -> Result<(), String> {
    if s.len() != want.len() || s.is_empty() != want.is_empty() {
        return Err(format!("len {} empty {} of {want:?}", s.len(), s.is_empty()));
    }
    for k in 0..n {
        if s.contains(&El(k)) != want.contains(&k) {
            return Err(format!("contains({k}) is {} of {want:?}", s.contains(&El(k))));
        }
    }
    let a: Vec<u16> = s.iter().map(|x| x.0).collect();
    let b: Vec<u16> = s.into_iter().map(|x| x.0).collect();
    if a != want || b != want {
        return Err(format!("iterations {a:?} and {b:?} of {want:?}"));
    }
    let text: Vec<String> = want.iter().map(|k| El(*k).to_string()).collect();
    if s.to_string() != text.join(", ") {
        return Err(format!("displayed as {:?} instead of {:?}", s.to_string(), text.join(", ")));
    }
    Ok(())
}

fn sequence(seq: &[u16], n: u16, each: bool, st: &mut Stats) -> Result<OrderedSet<El>, String> {
    let mut model: Vec<u16> = vec![];
    let mut s = OrderedSet::new();
    observe(&s, &[], n)?;
    observe(&OrderedSet::default(), &[], n)?;
    let mut kept: Option<(OrderedSet<El>, Vec<u16>)> = None;
    for (i, k) in seq.iter().enumerate() {
        let new = match model.binary_search(k) {
            Ok(_) => false,
            Err(at) => {
                model.insert(at, *k);
                true
            }
        };
        if s.insert(El(*k)) != new {
            return Err(format!("insert({k}) says {}", !new));
        }
        if each || i + 1 == seq.len() {
            observe(&s, &model, n)?;
        }
        st.add("transitions", 1);
        if i == seq.len() / 2 {
            kept = Some((s.clone(), model.clone()));
        }
    }
    if let Some((s, m)) = kept {
        observe(&s, &m, n).map_err(|e| format!("earlier copy: {e}"))?;
    }
    let c: OrderedSet<El> = seq.iter().map(|k| El(*k)).collect();
    observe(&c, &model, n).map_err(|e| format!("collected: {e}"))?;
    if c != s || hash(&c) != hash(&s) || c.cmp(&s) != std::cmp::Ordering::Equal {
        return Err("collected and built sets differ".into());
    }
    st.add("states", 1);
    Ok(s)
}

pub fn c28(ctx: &mut Ctx) {
    let n = ctx.pick(5, 6);
    let len = ctx.pick(7, 8);
    let alpha: Vec<u16> = (0..n).collect();
    for first in strings(&alpha, 2).into_iter().filter(|s| s.len() == 2) {
        let alpha = alpha.clone();
        let what = format!("operations starting with {first:?}");
        ctx.case(
            || what.clone(),
            |st| {
                for rest in strings(&alpha, len - 2) {
                    let mut seq = first.clone();
                    seq.extend(rest);
                    sequence(&seq, n, true, st)
                        .map_err(|e| Violation::new(format!("inserting {seq:?}: {e}"), format!("{seq:?}"), format!("{seq:?}")))?;
                    st.add("traces_validated_against_impl", 1);
                }
                Ok(())
            },
        );
    }
    // every pair of sets, each built in two orders
    let m = ctx.pick(8, 10);
    for a in 0..1u32 << m {
        ctx.case(
            || format!("set {a:b} beside every other"),
            |st| {
                let list = |x: u32| -> Vec<u16> { (0..m as u16).filter(|k| x >> k & 1 == 1).collect() };
                let s: OrderedSet<El> = list(a).into_iter().map(El).collect();
                for b in 0..1u32 << m {
                    let t: OrderedSet<El> = list(b).into_iter().rev().map(El).collect();
                    let o = list(a).cmp(&list(b));
                    let eq = a == b;
                    if (s == t) != eq || (s.cmp(&t) == std::cmp::Ordering::Equal) != eq || (eq && hash(&s) != hash(&t)) {
                        return Err(Violation::new(format!("{s:?} and {t:?} compare wrongly"), String::new(), format!("{a} {b}")));
                    }
                    if s.cmp(&t) != t.cmp(&s).reverse() || s.partial_cmp(&t) != Some(s.cmp(&t)) || (s.cmp(&t) == o) != (t.cmp(&s) == o.reverse()) {
                        return Err(Violation::new(format!("{s:?} and {t:?} are not ordered"), String::new(), format!("{a} {b}")));
                    }
                    st.add("pairs", 1);
                }
                st.add("traces_validated_against_impl", 1);
                Ok(())
            },
        );
    }
    // sizes
    for n in ctx.pick(&[15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025][..], &[15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025, 4097][..]) {
        let n = *n as u16;
        for k in 0..5u16 {
            ctx.case(
                || format!("{n} elements, order {k}"),
                |st| {
                    let seq: Vec<u16> = match k {
                        0 => (0..n).collect(),
                        1 => (0..n).rev().collect(),
                        2 => (0..n).map(|i| i * 7 % n).collect(),
                        3 => (0..n).flat_map(|i| [i, n - 1 - i]).collect(),
                        _ => (0..n).chain((0..n).rev()).collect(),
                    };
                    sequence(&seq, n, n <= 65, st)
                        .map_err(|e| Violation::new(format!("{n} elements, order {k}: {e}"), String::new(), format!("{n} {k}")))?;
                    st.add("traces_validated_against_impl", 1);
                    Ok(())
                },
            );
        }
    }
}
