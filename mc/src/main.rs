#![allow(dead_code)]
mod cfg;
mod checks;
mod compile;
mod corpus;
mod ctx;
mod dynp;
mod enumg;
mod fallback;
mod gen;
mod interp;
mod lexref;
mod reflr;
mod refparse;
mod spaces;
mod tables;
mod util;

use ctx::{CheckDef, Tier};
use std::path::{Path, PathBuf};

fn defs() -> Vec<CheckDef> {
    checks::defs()
}

fn tier(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

fn find(id: &str) -> CheckDef {
    match defs().into_iter().find(|c| c.id.eq_ignore_ascii_case(id)) {
        Some(c) => c,
        None => {
            println!("no check {id}");
            std::process::exit(2);
        }
    }
}

struct Known {
    property: String,
    key: String,
    what: String,
}

/// lines "open: property=<id> key=<key> :: <what>" (entries starting with "fixed:" suppress nothing)
fn known(verif: &Path) -> Vec<Known> {
    let t = std::fs::read_to_string(verif.join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("open: property=") {
            if let Some((p, r)) = r.split_once(" key=") {
                let (k, w) = r.split_once(" :: ").unwrap_or((r, ""));
                v.push(Known {
                    property: p.to_string(),
                    key: k.to_string(),
                    what: w.to_string(),
                });
            }
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--worker") {
        let c = find(&args[2]);
        let skip = args[7].split(',').filter_map(|x| x.parse().ok()).collect();
        let rc = ctx::worker(
            &c,
            tier(&args[3]),
            args[4].parse().unwrap(),
            args[5].parse().unwrap(),
            Path::new(&args[6]),
            skip,
        );
        std::process::exit(rc);
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("--gen") => std::process::exit(checks::c18::standalone(&args[2..])),
        Some("--genfile") => std::process::exit(checks::c20::standalone(&args[2..])),
        _ => (),
    }
    if args.len() < 3 {
        println!("usage: mc ID quick|thorough [--case N] [--jobs N]");
        std::process::exit(2);
    }
    let c = find(&args[1]);
    let t = tier(&args[2]);
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let scratch = ctx::scratch_root().join(format!("mc-{}-{}", c.id, std::process::id()));
    let mut jobs = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).max(2);
    let mut case = None;
    let mut i = 3;
    while i + 1 < args.len() {
        match args[i].as_str() {
            "--case" => case = args[i + 1].parse::<u64>().ok(),
            "--jobs" => jobs = args[i + 1].parse().unwrap_or(jobs),
            _ => (),
        }
        i += 2;
    }
    let _ = std::fs::create_dir_all(&scratch);
    if let Some(n) = case {
        let rc = ctx::run_single(&c, t, n, &scratch);
        let _ = std::fs::remove_dir_all(&scratch);
        std::process::exit(rc);
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t0 = std::time::Instant::now();
    let mut o = ctx::run_all(&c, t, &scratch, jobs);
    let _ = std::fs::remove_dir_all(&scratch);
    let wall = t0.elapsed().as_secs_f64();
    let kn = known(&verif);
    let mut seen_known = std::collections::BTreeSet::new();
    o.violations.retain(|(_, v)| {
        match kn.iter().position(|k| k.property == c.id && !k.key.is_empty() && v.key == k.key) {
            Some(i) => {
                seen_known.insert(i);
                false
            }
            None => true,
        }
    });
    for i in &seen_known {
        println!("KNOWN-FINDING: property={} {}", c.id, kn[*i].what);
    }
    o.stats.add("known_findings_seen", seen_known.len() as u64);
    let n = o.violations.len();
    let ev = verif.join("evidence").join(format!("{}.json", c.id));
    if let Err(e) = ctx::write_evidence(&c, t, seed, &o, wall, n, &ev) {
        println!("cannot write evidence: {e}");
        std::process::exit(2);
    }
    let mut s = String::new();
    for (k, v) in &o.stats.n {
        s += &format!(" {k}={v}");
    }
    println!("{} {}:{s} wall={wall:.1}s", c.id, t.name());
    if n > 0 {
        let rd = verif.join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (k, (case, v)) in o.violations.iter().enumerate().take(5) {
            let p = rd.join(format!("{}-{}-{k}.txt", c.id, t.name()));
            let again = match case {
                Some(n) => format!("replay: {}/check {} {} --case {n}\n", verif.display(), c.id, t.name()),
                None => String::new(),
            };
            let _ = std::fs::write(&p, format!("{}\n{again}key: {}\n{}\n", v.what, v.key, v.detail));
            println!("{}", v.what);
            println!("VIOLATION property={} replay={}", c.id, p.display());
        }
        std::process::exit(1);
    }
    if let Some(e) = o.machinery_error {
        println!("machinery error: {e}");
        std::process::exit(2);
    }
}
