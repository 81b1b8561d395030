//! Running a check: every worker process enumerates the same sequence of cases and executes those
//! that are its own; the parent watches for crashes and hangs and merges the results.
use crate::util::*;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(&self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

pub struct Ctx {
    pub tier: Tier,
    me: u64,
    of: u64,
    only: Option<u64>,
    idx: u64,
    pub stats: Stats,
    slot: *mut u64,
    out: Option<std::fs::File>,
    pub found: Vec<(u64, Violation)>,
    stop: bool,
    pub dir: PathBuf,
    pub verbose: bool,
    skip: Vec<u64>,
}

pub fn scratch_root() -> PathBuf {
    for p in ["/dev/shm", "/tmp"] {
        let t = Path::new(p).join(format!("mc-probe-{}", std::process::id()));
        if std::fs::write(&t, b"x").is_ok() {
            let _ = std::fs::remove_file(&t);
            return PathBuf::from(p);
        }
    }
    PathBuf::from("/tmp")
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(x) => o.push(x),
                None => (),
            }
        } else {
            o.push(c)
        }
    }
    o
}

static BEAT: std::sync::atomic::AtomicPtr<u64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// tells that this worker makes progress within a case
pub fn beat() {
    let p = BEAT.load(std::sync::atomic::Ordering::Relaxed);
    if !p.is_null() {
        unsafe {
            let c = p.add(1);
            std::ptr::write_volatile(c, std::ptr::read_volatile(c) + 1);
        }
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
    }));
}

/// runs f; a panic becomes Err(message)
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// picks a bound by tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn case(
        &mut self,
        desc: impl FnOnce() -> String,
        f: impl FnOnce(&mut Stats) -> CheckResult,
    ) {
        let idx = self.idx;
        self.idx += 1;
        if self.stop {
            return;
        }
        match self.only {
            Some(o) if o != idx => return,
            None if idx % self.of != self.me => return,
            _ => (),
        }
        if self.skip.contains(&idx) {
            return;
        }
        if !self.slot.is_null() {
            unsafe {
                std::ptr::write_volatile(self.slot, idx + 1);
                let c = self.slot.add(1);
                std::ptr::write_volatile(c, std::ptr::read_volatile(c) + 1);
            }
        }
        clear_stderr();
        let begun = Instant::now();
        let stats = &mut self.stats;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(stats)));
        let r = match r {
            Ok(r) => r,
            Err(e) if e.is::<crate::fallback::Skip>() => {
                self.stats.add("left_out_as_not_understood", 1);
                return;
            }
            Err(_) => Err(Violation::new(
                format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())),
                "",
                "",
            )),
        };
        self.stats.add("cases", 1);
        // (for whoever balances the tiers: MC_SLOW names a file)
        if let (Ok(f), true) = (std::env::var("MC_SLOW"), begun.elapsed().as_millis() >= 300) {
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(f) {
                let _ = writeln!(f, "{idx} {} ms", begun.elapsed().as_millis());
            }
        }
        if let Err(mut v) = r {
            v.detail = format!("case: {}\n{}", desc(), v.detail);
            if v.key.is_empty() {
                v.key = format!("case {}", v.detail.lines().next().unwrap_or(""));
            }
            if let Some(o) = &mut self.out {
                let _ = writeln!(
                    o,
                    "VIOL\t{idx}\t{}\t{}\t{}",
                    esc(&v.what),
                    esc(&v.detail),
                    esc(&v.key)
                );
                let _ = o.flush();
            }
            self.found.push((idx, v));
            if self.found.len() >= 20 {
                self.stop = true;
            }
        } else if self.verbose {
            println!("case {idx} holds: {}", desc());
        }
    }

    /// true if this process would execute the next case (to avoid building it otherwise)
    pub fn mine(&self) -> bool {
        match self.only {
            Some(o) => o == self.idx,
            None => self.idx % self.of == self.me,
        }
    }
    pub fn skip_case(&mut self) {
        self.idx += 1;
    }
}

static mut STDERR_FD: i32 = -1;

/// sends this process's stderr into an anonymous file
pub fn capture_stderr() {
    unsafe {
        let fd = libc::memfd_create(c"stderr".as_ptr(), 0);
        if fd >= 0 {
            libc::dup2(fd, 2);
            STDERR_FD = fd;
        }
    }
}

pub fn clear_stderr() {
    unsafe {
        if STDERR_FD >= 0 {
            libc::ftruncate(STDERR_FD, 0);
            libc::lseek(STDERR_FD, 0, libc::SEEK_SET);
        }
    }
}

pub fn take_stderr() -> String {
    unsafe {
        if STDERR_FD < 0 {
            return String::new();
        }
        let len = libc::lseek(STDERR_FD, 0, libc::SEEK_END).max(0) as usize;
        let mut b = vec![0u8; len];
        libc::pread(STDERR_FD, b.as_mut_ptr() as *mut libc::c_void, len, 0);
        clear_stderr();
        String::from_utf8_lossy(&b).into_owned()
    }
}

pub type CheckFn = fn(&mut Ctx);

pub struct CheckDef {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// seconds without progress in a case that count as a hang
    pub hang: u64,
    pub run: CheckFn,
}

pub struct Outcome {
    pub stats: Stats,
    pub violations: Vec<(Option<u64>, Violation)>,
    pub machinery_error: Option<String>,
}

fn limit_memory(gb: u64) {
    unsafe {
        let r = libc::rlimit {
            rlim_cur: gb << 30,
            rlim_max: gb << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let r = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &r);
    }
}

fn new_ctx(tier: Tier, dir: &Path) -> Ctx {
    Ctx {
        tier,
        me: 0,
        of: 1,
        only: None,
        idx: 0,
        stats: Stats::default(),
        slot: std::ptr::null_mut(),
        out: None,
        found: vec![],
        stop: false,
        dir: dir.to_path_buf(),
        verbose: false,
        skip: vec![],
    }
}

/// one case, in this process, with output
pub fn run_single(c: &CheckDef, tier: Tier, case: u64, dir: &Path) -> i32 {
    install_panic_hook();
    let mut ctx = new_ctx(tier, dir);
    ctx.only = Some(case);
    ctx.verbose = true;
    capture_stderr();
    (c.run)(&mut ctx);
    for (i, v) in &ctx.found {
        println!("VIOLATED case {i}: {}\n{}", v.what, v.detail);
    }
    if ctx.found.is_empty() {
        0
    } else {
        1
    }
}

pub fn worker(c: &CheckDef, tier: Tier, me: u64, of: u64, dir: &Path, skip: Vec<u64>) -> i32 {
    install_panic_hook();
    limit_memory(6);
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let mut ctx = new_ctx(tier, dir);
    ctx.me = me;
    ctx.of = of;
    ctx.skip = skip;
    let shm = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .open(dir.join("slots"))
        .expect("slots");
    use std::os::fd::AsRawFd;
    let p = unsafe {
        libc::mmap(
            std::ptr::null_mut(),
            (of as usize) * 64,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            shm.as_raw_fd(),
            0,
        )
    };
    assert!(p != libc::MAP_FAILED);
    ctx.slot = unsafe { (p as *mut u64).add(me as usize * 8) };
    BEAT.store(ctx.slot, std::sync::atomic::Ordering::Relaxed);
    ctx.out = Some(
        std::fs::OpenOptions::new()
            .append(true)
            .create(true)
            .open(dir.join(format!("out{me}")))
            .expect("out"),
    );
    ctx.dir = dir.join(format!("d{me}"));
    std::fs::create_dir_all(&ctx.dir).expect("dir");
    capture_stderr();
    (c.run)(&mut ctx);
    let n = crate::fallback::COMPILED.load(std::sync::atomic::Ordering::Relaxed);
    if n > 0 {
        ctx.stats.add("parsers_compiled_as_not_evaluated", n);
    }
    let stats = ctx.stats.clone();
    let o = ctx.out.as_mut().unwrap();
    for (k, v) in stats.n.iter() {
        writeln!(o, "STAT\t{k}\t{v}").expect("write");
    }
    for s in stats.samples.iter() {
        writeln!(o, "SAMPLE\t{}", esc(s)).expect("write");
    }
    writeln!(o, "DONE\t{}", ctx.idx).expect("write");
    0
}

pub fn run_all(c: &CheckDef, tier: Tier, dir: &Path, jobs: u64) -> Outcome {
    std::fs::create_dir_all(dir).expect("scratch dir");
    std::fs::write(dir.join("slots"), vec![0u8; jobs as usize * 64]).expect("slots");
    let exe = std::env::current_exe().expect("exe");
    let mut out = Outcome {
        stats: Stats::default(),
        violations: vec![],
        machinery_error: None,
    };
    struct W {
        child: Option<std::process::Child>,
        last: u64,
        since: Instant,
        restarts: u32,
        skip: Vec<u64>,
    }
    let spawn = |i: u64, skip: &[u64]| {
        let s: Vec<String> = skip.iter().map(|x| x.to_string()).collect();
        std::process::Command::new(&exe)
            .arg("--worker")
            .arg(c.id)
            .arg(tier.name())
            .arg(i.to_string())
            .arg(jobs.to_string())
            .arg(dir)
            .arg(s.join(","))
            .stdout(std::process::Stdio::null())
            .spawn()
            .expect("worker")
    };
    let mut ws: Vec<W> = (0..jobs)
        .map(|i| W {
            child: Some(spawn(i, &[])),
            last: 0,
            since: Instant::now(),
            restarts: 0,
            skip: vec![],
        })
        .collect();
    let read_slot = |i: u64| -> (u64, u64) {
        let b = std::fs::read(dir.join("slots")).unwrap_or_default();
        let g = |o: usize| {
            b.get(o..o + 8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).unwrap_or(0)
        };
        (g(i as usize * 64), g(i as usize * 64 + 8))
    };
    loop {
        let mut live = 0;
        for i in 0..jobs {
            let (cur, beat) = read_slot(i);
            let w = &mut ws[i as usize];
            let Some(ch) = &mut w.child else { continue };
            live += 1;
            if beat != w.last {
                w.last = beat;
                w.since = Instant::now();
            }
            let mut lost: Option<String> = None;
            match ch.try_wait() {
                Ok(Some(st)) => {
                    w.child = None;
                    if !st.success() {
                        lost = Some(match st.signal() {
                            Some(s) => format!("crashed with signal {s}"),
                            None => format!("ended with status {:?}", st.code()),
                        });
                    }
                }
                Ok(None) => {
                    if w.since.elapsed() > Duration::from_secs(c.hang) {
                        let _ = ch.kill();
                        let _ = ch.wait();
                        w.child = None;
                        lost = Some(format!("did not end within {} s", c.hang));
                    }
                }
                Err(e) => {
                    out.machinery_error = Some(format!("{e}"));
                    w.child = None;
                }
            }
            if let Some(how) = lost {
                if cur == 0 {
                    out.machinery_error = Some(format!("worker {i} {how} before its first case"));
                } else {
                    let case = cur - 1;
                    out.violations.push((
                        Some(case),
                        Violation::new(
                            format!("the code under check {how}"),
                            format!("case index {case}"),
                            "",
                        ),
                    ));
                    w.skip.push(case);
                    w.restarts += 1;
                    if w.restarts < 3 && !how.starts_with("did not end") {
                        w.since = Instant::now();
                        w.child = Some(spawn(i, &w.skip));
                    } else {
                        out.stats.add("workers_stopped_early", 1);
                    }
                }
            }
        }
        if live == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    let mut lengths = std::collections::BTreeSet::new();
    for i in 0..jobs {
        let t = std::fs::read_to_string(dir.join(format!("out{i}"))).unwrap_or_default();
        let mut done = false;
        let mut st = Stats::default();
        for l in t.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "STAT" if f.len() == 3 => st.add(f[1], f[2].parse().unwrap_or(0)),
                "SAMPLE" if f.len() >= 2 => st.samples.push(unesc(f[1])),
                "VIOL" if f.len() == 5 => {
                    let case = f[1].parse().ok();
                    if !out.violations.iter().any(|v| v.0.is_some() && v.0 == case) {
                        out.violations.push((
                            case,
                            Violation::new(unesc(f[2]), unesc(f[3]), unesc(f[4])),
                        ))
                    }
                }
                "DONE" => {
                    done = true;
                    lengths.insert(f.get(1).unwrap_or(&"").to_string());
                }
                _ => (),
            }
        }
        out.stats.merge(&st);
        if !done && out.violations.is_empty() && out.machinery_error.is_none() {
            out.machinery_error = Some(format!("worker {i} did not finish"));
        }
    }
    // (each executes the cases that are its own of one sequence)
    if lengths.len() > 1 && out.machinery_error.is_none() {
        out.machinery_error = Some(format!("the workers disagree on the number of cases: {lengths:?}"));
    }
    out
}

pub fn write_evidence(
    c: &CheckDef,
    tier: Tier,
    seed: u64,
    o: &Outcome,
    wall: f64,
    nviol: usize,
    path: &Path,
) -> std::io::Result<()> {
    let mut s = String::from("{\n");
    s += &format!(" \"property\": {},\n", jstr(c.id));
    s += &format!(" \"tier\": {},\n", jstr(tier.name()));
    s += &format!(" \"seed\": {seed},\n");
    s += &format!(" \"level\": {},\n", jstr(c.level));
    s += " \"coverage\": {\n";
    for (k, v) in o.stats.n.iter() {
        s += &format!("  {}: {v},\n", jstr(k));
    }
    s += &format!("  \"rule\": {},\n", jstr(c.rule));
    s += &format!(
        "  \"exhaustive\": {},\n",
        o.violations.is_empty() && o.machinery_error.is_none()
    );
    let sm: Vec<String> = o.stats.samples.iter().map(|x| jstr(x)).collect();
    s += &format!("  \"samples\": [\n   {}\n  ]\n", sm.join(",\n   "));
    s += " },\n";
    let a: Vec<String> = c.assumptions.iter().map(|x| jstr(x)).collect();
    s += &format!(" \"assumptions\": [{}],\n", a.join(", "));
    s += &format!(" \"wall_s\": {wall:.2},\n");
    s += &format!(" \"violations\": {nviol}\n}}\n");
    if let Some(p) = path.parent() {
        std::fs::create_dir_all(p)?;
    }
    std::fs::write(path, s)
}
