//! Runner: a contract group is a function from (case index, per-case rng) to Ok(class) or Err(what failed).
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s ^ 0x9E3779B97F4A7C15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive range
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.f() }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.us(v.len())] }
}

pub type CaseResult = Result<&'static str, String>;

pub struct Group {
    pub name: &'static str,
    /// the contract being decided, in words
    pub contract: &'static str,
    /// number of cases for (quick, thorough)
    pub n: (u64, u64),
    /// whether the n cases enumerate the whole stated scope
    pub exhaustive: bool,
    pub f: Box<dyn Fn(u64, &mut Rng) -> CaseResult + Sync>,
}

pub fn group(name: &'static str, contract: &'static str, n: (u64, u64),
    f: impl Fn(u64, &mut Rng) -> CaseResult + Sync + 'static) -> Group {
    Group { name, contract, n, exhaustive: false, f: Box::new(f) }
}
pub fn exhaustive(name: &'static str, contract: &'static str, n: (u64, u64),
    f: impl Fn(u64, &mut Rng) -> CaseResult + Sync + 'static) -> Group {
    Group { name, contract, n, exhaustive: true, f: Box::new(f) }
}

fn fnv(s: &str) -> u64 { s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) }

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn run_case(g: &Group, i: u64, seed: u64) -> CaseResult {
    let mut rng = Rng::new(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ fnv(g.name) ^ i.wrapping_mul(0xD6E8FEB86659FD93));
    match catch_unwind(AssertUnwindSafe(|| (g.f)(i, &mut rng))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// Args: [--tier quick|thorough] [--seed N] [--out FILE] [--group G --case N]
pub fn main_with(prop: &str, groups: Vec<Group>) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let tier = get("--tier").unwrap_or("quick".into());
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let only = get("--group");
    let case: Option<u64> = get("--case").and_then(|s| s.parse().ok());
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 60.0 } else { 600.0 });
    std::panic::set_hook(Box::new(|info| {
        let m = info.payload().downcast_ref::<String>().cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
    if let (Some(gname), Some(c)) = (&only, case) {
        let g = groups.iter().find(|g| g.name == gname).expect("no such group");
        match run_case(g, c, seed) {
            Ok(k) => { println!("contract {prop}/{} case {c}: holds ({k})", g.name); std::process::exit(0) }
            Err(e) => { println!("contract {prop}/{} case {c}: VIOLATED\n{e}", g.name); std::process::exit(1) }
        }
    }
    let nthreads = std::env::var("CX_THREADS").ok().and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let active: Vec<&Group> = groups.iter().filter(|g| only.as_deref().map_or(true, |o| o == g.name)).collect();
    // after a crash the driver runs again with one thread and asks for the case being executed to be recorded
    let progress = std::env::var("CX_PROGRESS").ok();
    let t0 = Instant::now();
    let mut out = vec![];
    let mut failures = vec![];
    let mut remaining = active.len();
    for g in active {
        // fair share of what is left of the budget
        let share = ((budget - t0.elapsed().as_secs_f64()) / remaining as f64 * 1.5).max(3.0);
        remaining -= 1;
        let n = if tier != "quick" { g.n.1 } else if g.exhaustive { g.n.0 } else { (4 * g.n.0).min(g.n.1) };
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let classes: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
        let fails: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let current: Vec<Mutex<Option<(u64, Instant)>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
        let gt = Instant::now();
        std::thread::scope(|s| {
            let mut hs = vec![];
            for t in 0..nthreads {
                let (next, done, stop, classes, fails, current, progress) = (&next, &done, &stop, &classes, &fails, &current, &progress);
                hs.push(s.spawn(move || {
                    let mut local: BTreeMap<&'static str, u64> = BTreeMap::new();
                    while !stop.load(Ordering::Relaxed) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || gt.elapsed().as_secs_f64() > share { break; }
                        *current[t].lock().unwrap() = Some((i, Instant::now()));
                        if let Some(p) = progress { let _ = std::fs::write(p, format!("{}\n{i}\n{}", g.name, g.contract)); }
                        match run_case(g, i, seed) {
                            Ok(k) => *local.entry(k).or_default() += 1,
                            Err(e) => { fails.lock().unwrap().push((i, e)); stop.store(true, Ordering::Relaxed); }
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                    }
                    *current[t].lock().unwrap() = None;
                    let mut c = classes.lock().unwrap();
                    for (k, v) in local { *c.entry(k).or_default() += v; }
                }));
            }
            // watchdog
            while hs.iter().any(|h| !h.is_finished()) {
                std::thread::sleep(Duration::from_millis(5));
                for c in &current {
                    let cur = *c.lock().unwrap();
                    if let Some((i, at)) = cur {
                        if at.elapsed() > Duration::from_secs(150) {
                            let f = serde_json::json!({"group": g.name, "contract": g.contract, "case": i, "seed": seed,
                                "message": "call did not return within 150 s (normal cases take milliseconds)"});
                            emit(prop, &tier, seed, &out, &[f], t0, get("--out"));
                            std::process::exit(1);
                        }
                    }
                }
            }
        });
        let done = done.load(Ordering::Relaxed);
        let mut fl = fails.into_inner().unwrap();
        fl.sort();
        let classes = classes.into_inner().unwrap();
        out.push(serde_json::json!({"group": g.name, "contract": g.contract, "cases": done, "requested": n,
            "exhaustive": g.exhaustive && done == n, "classes": classes, "seconds": gt.elapsed().as_secs_f64()}));
        if let Some((i, e)) = fl.into_iter().next() {
            failures.push(serde_json::json!({"group": g.name, "contract": g.contract, "case": i, "seed": seed, "message": e}));
        }
    }
    let bad = !failures.is_empty();
    emit(prop, &tier, seed, &out, &failures, t0, get("--out"));
    std::process::exit(if bad { 1 } else { 0 });
}

fn emit(prop: &str, tier: &str, seed: u64, out: &[serde_json::Value], failures: &[serde_json::Value], t0: Instant, path: Option<String>) {
    let j = serde_json::json!({"property": prop, "tier": tier, "seed": seed, "groups": out, "failures": failures, "wall_s": t0.elapsed().as_secs_f64()});
    match path {
        Some(p) => std::fs::write(p, serde_json::to_string_pretty(&j).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&j).unwrap()),
    }
}
