//! Searches for a concrete input on which the real crate breaks a property.
//! engine search PROP --seed N --secs S [--min CASES] [--thorough]   -> FOUND / CLEAN
//! engine replay FILE
mod dev;
mod direct;
mod gen;
mod oracle;
mod rng;
mod sess;
mod types;

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub why: Option<String>,
    pub desc: Vec<String>,
    pub seen: HashSet<u64>,
    pub evals: u64,
    pub thorough: bool,
    pub case: u64,
}

static PANIC: Mutex<String> = Mutex::new(String::new());

/// The system allocator; a request it cannot meet, made by guarded code of the
/// crate, would abort the process: report it as what it is.
struct Alloc;
static GUARDED: AtomicBool = AtomicBool::new(false);
static SITE: Mutex<Option<Site>> = Mutex::new(None);
struct Site {
    prop: String,
    what: String,
    case: u64,
    desc: Vec<String>,
    thorough: bool,
}
/// (seed, report file, replaying)
static RUN: Mutex<(u64, String, bool)> = Mutex::new((0, String::new(), false));

fn refused(n: usize) {
    if !GUARDED.swap(false, Ordering::Relaxed) {
        return;
    }
    let (Ok(s), Ok(r)) = (SITE.try_lock(), RUN.try_lock()) else { return };
    if let Some(s) = s.as_ref() {
        let why = format!("{} asks for {n} bytes of memory and the process aborts", s.what);
        if r.2 {
            println!("FAILS: {why}");
        } else {
            report(&s.prop, r.0, s.case, s.thorough, &why, &s.desc, &r.1);
        }
        std::process::exit(1);
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if p.is_null() {
            refused(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            refused(l.size());
        }
        p
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let p = System.realloc(q, l, n);
        if p.is_null() {
            refused(n);
        }
        p
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        System.dealloc(q, l)
    }
}

#[global_allocator]
static ALLOC: Alloc = Alloc;

impl Ctx {
    pub fn wants(&self, p: &[&str]) -> bool {
        p.contains(&self.prop.as_str())
    }
    pub fn fail(&mut self, p: &[&str], m: impl FnOnce() -> String) {
        if self.why.is_none() && self.wants(p) {
            self.why = Some(m());
        }
    }
    pub fn check(&mut self, p: &[&str], ok: bool, m: impl FnOnce() -> String) {
        if !ok {
            self.fail(p, m)
        }
    }
    pub fn failed(&self) -> bool {
        self.why.is_some()
    }
    pub fn say(&mut self, s: String) {
        self.desc.push(s);
    }
    pub fn seen(&mut self, x: &impl Hash) {
        if self.seen.len() < 4_000_000 {
            let mut h = DefaultHasher::new();
            x.hash(&mut h);
            self.seen.insert(h.finish());
        }
    }
    /// run code of the crate; a panic breaks the given properties
    pub fn guard<T>(&mut self, p: &[&str], what: &str, f: impl FnOnce() -> T) -> Option<T> {
        self.evals += 1;
        let watched = self.why.is_none() && self.wants(p);
        if watched {
            let mut g = SITE.lock().unwrap_or_else(|e| e.into_inner());
            *g = Some(Site {
                prop: self.prop.clone(),
                what: what.to_string(),
                case: self.case,
                desc: self.desc.clone(),
                thorough: self.thorough,
            });
            drop(g);
            GUARDED.store(true, Ordering::Relaxed);
        }
        let res = catch_unwind(AssertUnwindSafe(f));
        if watched {
            GUARDED.store(false, Ordering::Relaxed);
        }
        match res {
            Ok(v) => Some(v),
            Err(e) => {
                if dev::GAVE_UP.load(Ordering::Relaxed) {
                    std::panic::resume_unwind(e);
                }
                let m = PANIC.lock().map(|g| g.clone()).unwrap_or_default();
                self.fail(p, || format!("{what} panicked: {m}"));
                None
            }
        }
    }
}

static CASE: AtomicU64 = AtomicU64::new(0);

fn run_case(ctx: &mut Ctx, seed: u64, case: u64) {
    ctx.desc.clear();
    ctx.case = case;
    let mut r = rng::Rng::new(seed, case);
    let res = catch_unwind(AssertUnwindSafe(|| direct::case(ctx, &mut r, case)));
    if dev::GAVE_UP.swap(false, Ordering::Relaxed) {
        return;
    }
    if res.is_err() {
        // a panic outside a guard: in the machinery, or in an accessor of the crate
        let m = PANIC.lock().map(|g| g.clone()).unwrap_or_default();
        eprintln!("NOTE case {case}: {m}");
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut g) = PANIC.lock() {
            *g = i.to_string();
        }
    }));
    let arg = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => {
            let prop = a[2].clone();
            let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let secs: u64 = arg("--secs").and_then(|s| s.parse().ok()).unwrap_or(20);
            let max: u64 = arg("--cases").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
            let from: u64 = arg("--from").and_then(|s| s.parse().ok()).unwrap_or(0);
            let stride: u64 = arg("--stride").and_then(|s| s.parse().ok()).unwrap_or(1);
            let out = arg("--out").unwrap_or_default();
            search(prop, seed, secs, max, from, stride, a.contains(&"--thorough".to_string()), &out);
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string());
            let prop = get("property:").expect("property");
            let (seed, case) = match (get("seed:"), get("case:")) {
                (Some(s), Some(c)) => (s.parse().unwrap(), c.parse().unwrap()),
                _ => {
                    println!("no concrete input in this file");
                    std::process::exit(2);
                }
            };
            watchdog(prop.clone(), seed, String::new());
            *RUN.lock().expect("run") = (seed, String::new(), true);
            let mut ctx = ctx(&prop, get("thorough:").is_some());
            run_case(&mut ctx, seed, case);
            for d in &ctx.desc {
                println!("{d}");
            }
            match ctx.why {
                Some(w) => {
                    println!("FAILS: {w}");
                    std::process::exit(1);
                }
                None => println!("does not fail"),
            }
        }
        Some("known") => {
            // the recorded finding is still there?
            match direct::known_growth() {
                Some(s) => println!("KNOWN {s}"),
                None => println!("GONE"),
            }
        }
        _ => {
            eprintln!("usage: engine search PROP | replay FILE | known");
            std::process::exit(2);
        }
    }
}

fn ctx(prop: &str, thorough: bool) -> Ctx {
    Ctx { prop: prop.into(), why: None, desc: vec![], seen: HashSet::new(), evals: 0, thorough, case: 0 }
}

fn report(prop: &str, seed: u64, case: u64, thorough: bool, why: &str, desc: &[String], out: &str) {
    let mut s = format!("property: {prop}\nseed: {seed}\ncase: {case}\n");
    if thorough {
        s += "thorough: 1\n";
    }
    s += &format!("what failed: {why}\n\ninput:\n");
    for d in desc {
        s += &format!("  {d}\n");
    }
    if !out.is_empty() {
        if let Ok(mut f) = std::fs::File::create(out) {
            let _ = f.write_all(s.as_bytes());
        }
    }
    println!("FOUND case={case} {}", why.replace('\n', " "));
}

/// a case that takes minutes is an endless loop
fn watchdog(prop: String, seed: u64, out: String) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let c = CASE.load(Ordering::Relaxed);
            if c != last.0 {
                last = (c, Instant::now());
            }
            if last.1.elapsed() > Duration::from_secs(60) {
                report(&prop, seed, c, false, "the operation does not end (60 s)", &[], &out);
                std::process::exit(1);
            }
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn search(prop: String, seed: u64, secs: u64, max: u64, from: u64, stride: u64, thorough: bool, out: &str) {
    let start = Instant::now();
    let mut ctx = ctx(&prop, thorough);
    watchdog(prop.clone(), seed, out.to_string());
    *RUN.lock().expect("run") = (seed, out.to_string(), false);
    let mut n = 0;
    let mut case = from;
    let mut sample = vec![];
    while n < max && start.elapsed() < Duration::from_secs(secs) {
        CASE.store(case, Ordering::Relaxed);
        run_case(&mut ctx, seed, case);
        n += 1;
        if let Some(w) = ctx.why.take() {
            report(&prop, seed, case, thorough, &w, &ctx.desc, out);
            std::process::exit(1);
        }
        if n == 3 {
            sample = ctx.desc.clone();
        }
        case += stride;
    }
    println!("CLEAN cases={n} evaluations={} distinct={}", ctx.evals, ctx.seen.len());
    for s in sample.iter().take(6) {
        println!("SAMPLE {}", s.chars().take(400).collect::<String>());
    }
}
