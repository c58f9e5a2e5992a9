//! Running cases, collecting what was observed, verdicts, evidence and replay files.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Violation { pub what: String, pub sig: String, pub witness: Value }
impl Violation {
    pub fn new(what: impl Into<String>, witness: Value) -> Self { Violation { what: what.into(), sig: String::new(), witness } }
}
pub type CaseResult = Result<(), Violation>;
#[macro_export]
macro_rules! viol { ($w:expr, $($fmt:tt)*) => { return Err($crate::report::Violation::new(format!($($fmt)*), $w)) } }

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub trials: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn count(&mut self, k: &str, n: u64) { if n > 0 { *self.counters.entry(k.to_string()).or_insert(0) += n } }
    /// registers a non-trivial case by its content
    pub fn nontrivial(&mut self, content: &str) -> bool {
        self.trials += 1;
        let new = self.distinct.insert(crate::rng::hash_str(content));
        if new && self.samples.len() < 2 { self.samples.push(show(content, 600)); }
        new
    }
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.trials += o.trials;
        for (k, v) in o.counters { *self.counters.entry(k).or_insert(0) += v; }
        self.distinct.extend(o.distinct);
        for s in o.samples { if self.samples.len() < 4 { self.samples.push(s) } }
    }
}
pub fn show(s: &str, max: usize) -> String {
    let mut t: String = s.chars().take(max).map(|c| if c == '\u{1}' { '|' } else { c }).collect();
    if s.chars().count() > max { t.push_str("...") }
    t
}

pub struct Case<'a> { pub idx: u64, pub rng: Rng, pub stats: &'a mut Stats, pub thorough: bool }

// ---- guarded calls into the code under test -------------------------------------------------------------------
thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; static QUIET: RefCell<bool> = const { RefCell::new(false) }; }
pub static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{msg} at {loc}");
        let quiet = LAST_PANIC.try_with(|l| { *l.borrow_mut() = text.clone() }).is_ok() && QUIET.try_with(|q| *q.borrow()).unwrap_or(false);
        if !quiet {
            eprintln!("panic in thread {:?}: {}", std::thread::current().name(), text);
            if let Ok(mut p) = PANICS.lock() { if p.len() < 100 { p.push(text) } }
        }
    }));
}
/// calls into the subject, turning a panic into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

// ---- breadcrumbs: which case each thread is in, readable by the driver after a crash ---------------------------
pub const SLOTS: usize = 16;
static CRUMBS: AtomicU64 = AtomicU64::new(0); // address of the mapping
static CAP_FD: AtomicI32 = AtomicI32::new(2);
pub fn open_crumbs(path: &str) {
    use std::os::unix::io::IntoRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("crumb file");
    f.set_len((SLOTS * 8) as u64).unwrap();
    let fd = f.into_raw_fd();
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), SLOTS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        assert!(p != libc::MAP_FAILED);
        CRUMBS.store(p as u64, SeqCst);
    }
}
pub fn crumb(slot: usize, v: u64) {
    let p = CRUMBS.load(Relaxed);
    if p != 0 { unsafe { std::ptr::write_volatile((p as *mut u64).add(slot), v) } }
}
pub fn mem_cap_exit(live: i64) -> ! {
    let _ = live;
    let m = b"memory cap exceeded in the code under test\n";
    unsafe { libc::write(CAP_FD.load(Relaxed), m.as_ptr() as *const _, m.len()); libc::_exit(77) }
}

// ---- options ---------------------------------------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Opts { pub prop: String, pub tier: String, pub seed: u64, pub evidence: String, pub replay_dir: String, pub only: Option<u64>, pub threads: usize, pub crumbs: String }
impl Opts {
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    pub fn pick(&self, quick: u64, thorough: u64) -> u64 { if self.thorough() { thorough } else { quick } }
}
pub struct Outcome { pub stats: Stats, pub violation: Option<(u64, Violation)>, pub inconclusive: Option<String>, pub wall: f64, pub rule: String, pub level: String, pub assumptions: Vec<String>, pub extra: Value }

#[cfg(not(miri))]
thread_local! { static TID_CLOCK: libc::clockid_t = unsafe { let mut c = 0; libc::pthread_getcpuclockid(libc::pthread_self(), &mut c); c }; }
#[cfg(miri)]
thread_local! { static TID_CLOCK: libc::clockid_t = 0; }
#[cfg(miri)]
fn cpu_of(_: libc::clockid_t) -> f64 { 0.0 }
#[cfg(not(miri))]
fn cpu_of(clk: libc::clockid_t) -> f64 {
    unsafe { let mut ts: libc::timespec = std::mem::zeroed(); libc::clock_gettime(clk, &mut ts); ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9 }
}
/// properties whose cases depend on nothing but the seed
fn deterministic(p: &str) -> bool { p == "C33" || p.strip_prefix('C').and_then(|n| n.parse::<u32>().ok()).map_or(false, |n| n <= 20) }
struct Running { idx: AtomicU64, clk: AtomicI32, cpu0: AtomicU64 }

/// Runs `total` cases over all threads (or the single case opts.only); stops at the first violation.
pub fn run_cases<F>(o: &Opts, total: u64, min_evals: u64, secs: u64, f: F) -> Outcome
where F: Fn(&mut Case) -> CaseResult + Sync {
    // the sanitizer runs of C28 use fewer cases of the same workloads
    let limited = std::env::var("VERIF_CASES").ok().and_then(|v| v.parse::<u64>().ok());
    let (total, min_evals) = match limited { Some(n) => (n.min(total), 0), None => (total, min_evals) };
    let secs = std::env::var("VERIF_SECS").ok().and_then(|v| v.parse().ok()).unwrap_or(secs);
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Violation)>> = Mutex::new(None);
    let harness_err: Mutex<Option<String>> = Mutex::new(None);
    let all = Mutex::new(Stats::default());
    let threads = if o.only.is_some() { 1 } else { o.threads.min(SLOTS) };
    let running: Vec<Running> = (0..threads).map(|_| Running { idx: AtomicU64::new(u64::MAX), clk: AtomicI32::new(0), cpu0: AtomicU64::new(0) }).collect();
    let limit = Duration::from_secs(secs);
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for slot in 0..threads {
            let (next, stop, found, harness_err, all, f, running) = (&next, &stop, &found, &harness_err, &all, &f, &running);
            hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let mut st = Stats::default();
                let clk = TID_CLOCK.with(|c| *c);
                running[slot].clk.store(clk, SeqCst);
                loop {
                    if stop.load(Relaxed) || t0.elapsed() > limit { break }
                    let idx = match o.only { Some(i) => i, None => { let i = next.fetch_add(1, Relaxed); if i >= total { break } i } };
                    crumb(slot, idx + 1);
                    running[slot].cpu0.store(cpu_of(clk).to_bits(), SeqCst);
                    running[slot].idx.store(idx, SeqCst);
                    let mut c = Case { idx, rng: Rng::new(o.seed, &o.prop, idx), stats: &mut st, thorough: o.thorough() };
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
                    crate::vclock::clear();
                    running[slot].idx.store(u64::MAX, SeqCst);
                    st.evals += 1;
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(v)) => { let mut g = found.lock().unwrap(); if g.is_none() { *g = Some((idx, v)) } stop.store(true, Relaxed); }
                        // the oracles do not panic on what the library may return: a panic that comes back is the library's,
                        // or is about an answer that no correct library gives
                        Err(_) if deterministic(&o.prop) => {
                            let first = LAST_PANIC.with(|l| l.borrow().clone());
                            let mut scratch = Stats::default();
                            let mut c = Case { idx, rng: Rng::new(o.seed, &o.prop, idx), stats: &mut scratch, thorough: o.thorough() };
                            let again = catch_unwind(AssertUnwindSafe(|| f(&mut c)));
                            crate::vclock::clear();
                            let v = match again {
                                Err(_) => Some(Violation::new(format!("the case ends in a panic, every time: {first}; then {}", LAST_PANIC.with(|l| l.borrow().clone())), json!(null))),
                                Ok(Err(v)) => Some(v),
                                Ok(Ok(())) => { *harness_err.lock().unwrap() = Some(format!("panic in case {idx} that did not come back: {first}")); None }
                            };
                            if let Some(v) = v { let mut g = found.lock().unwrap(); if g.is_none() { *g = Some((idx, v)) } }
                            stop.store(true, Relaxed);
                        }
                        Err(_) => { *harness_err.lock().unwrap() = Some(format!("harness panicked in case {idx}: {}", LAST_PANIC.with(|l| l.borrow().clone()))); stop.store(true, Relaxed); }
                    }
                    if o.only.is_some() { break }
                }
                crumb(slot, 0);
                all.lock().unwrap().merge(st);
            }).unwrap());
        }
        // watchdog: a case that burns processor time without finishing (typical cases take well under 0.1 s)
        let (done, running2, opts) = (&done, &running, o);
        sc.spawn(move || while !done.load(Relaxed) {
            std::thread::sleep(Duration::from_millis(200));
            for r in running2 {
                let i = r.idx.load(SeqCst);
                if i == u64::MAX { continue }
                let used = cpu_of(r.clk.load(SeqCst)) - f64::from_bits(r.cpu0.load(SeqCst));
                if used > 40.0 && r.idx.load(SeqCst) == i {
                    let v = Violation::new(format!("case {i} does not terminate: {used:.0} s of processor time (typical: milliseconds)"), json!(null));
                    finish_violation(opts, i, &v);
                    std::process::exit(1);
                }
            }
        });
        for h in hs { let _ = h.join(); }
        done.store(true, Relaxed);
    });
    let stats = all.into_inner().unwrap();
    let violation = found.into_inner().unwrap();
    let mut inconclusive = harness_err.into_inner().unwrap();
    if violation.is_none() && inconclusive.is_none() && o.only.is_none() && stats.evals < min_evals {
        inconclusive = Some(format!("only {} of the required {} cases ran", stats.evals, min_evals));
    }
    Outcome { stats, violation, inconclusive, wall: t0.elapsed().as_secs_f64(), rule: String::new(), level: "exploration".into(), assumptions: vec![], extra: json!({}) }
}

pub fn finish_violation(o: &Opts, idx: u64, v: &Violation) {
    let _ = std::fs::create_dir_all(&o.replay_dir);
    let path = format!("{}/{}-seed{}-case{}.json", o.replay_dir, o.prop, o.seed, idx);
    let body = json!({"property": o.prop, "seed": o.seed, "case": idx, "tier": o.tier, "what": v.what, "witness": v.witness,
        "replay_cmd": format!("/verif/check {} --tier {} --seed {} --case {}", o.prop, o.tier, o.seed, idx)});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
    println!("violated: {}", show(&v.what, 1500));
    println!("VIOLATION property={} replay={}", o.prop, path);
}

/// known findings: (property, signature) pairs in /verif/known_findings.json, read-only
pub fn known(prop: &str, sig: &str) -> bool {
    if sig.is_empty() { return false }
    let p = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) + "/known_findings.json";
    let Ok(s) = std::fs::read_to_string(p) else { return false };
    let Ok(v) = serde_json::from_str::<Value>(&s) else { return false };
    v["findings"].as_array().map_or(false, |a| a.iter().any(|f| f["property"] == prop && f["signature"] == sig && f["status"] == "known"))
}

pub fn finish(o: &Opts, out: Outcome) -> i32 {
    let mut cov = json!({
        "evaluations": out.stats.evals.max(out.stats.trials),
        "cases": out.stats.evals,
        "distinct_nontrivial": out.stats.distinct.len(),
        "rule": out.rule,
        "samples": out.stats.samples,
        "observed": out.stats.counters,
    });
    if let (Some(c), Some(e)) = (cov.as_object_mut(), out.extra.as_object()) { for (k, v) in e { c.insert(k.clone(), v.clone()); } }
    let ev = json!({"property": o.prop, "tier": if o.thorough() {"thorough"} else {"quick"}, "seed": o.seed, "level": out.level, "coverage": cov,
        "assumptions": out.assumptions, "wall_s": (out.wall * 100.0).round() / 100.0, "violations": out.violation.is_some() as u32});
    if o.only.is_none() && !o.evidence.is_empty() {
        if let Some(d) = std::path::Path::new(&o.evidence).parent() { let _ = std::fs::create_dir_all(d); }
        std::fs::write(&o.evidence, serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s, observed {}", o.prop, out.stats.evals, out.stats.distinct.len(), out.wall, json!(out.stats.counters));
    if let Some((idx, v)) = out.violation { finish_violation(o, idx, &v); return 1 }
    if let Some(e) = out.inconclusive { println!("INCONCLUSIVE property={} {}", o.prop, e); return 3 }
    0
}
