//! Counting allocator: per-thread live/peak bytes while a measurement is active, and a hard cap that ends the
//! process with exit code 77 (the driver turns that into a verdict) before the machine runs out of memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};
pub struct Counting;
/// bytes in use by all threads, counted once this is switched on
pub static EVERYTHING: AtomicBool = AtomicBool::new(false);
pub static IN_USE: AtomicI64 = AtomicI64::new(0);
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
pub const HARD_CAP: i64 = 1 << 30;
fn add(n: i64) {
    if EVERYTHING.load(Relaxed) { IN_USE.fetch_add(n, Relaxed); }
    let _ = ON.try_with(|on| if on.get() {
        LIVE.with(|l| { let v = l.get() + n; l.set(v); PEAK.with(|p| if v > p.get() { p.set(v) });
            if v > HARD_CAP { crate::report::mem_cap_exit(v) } });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { add(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n as i64 - l.size() as i64); System.realloc(p, l, n) }
}
#[cfg(feature = "countalloc")]
#[global_allocator]
static A: Counting = Counting;

/// runs f and returns (result, peak bytes allocated by this thread above the starting point)
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64) {
    LIVE.with(|l| l.set(0)); PEAK.with(|p| p.set(0)); ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, PEAK.with(|p| p.get()).max(0) as u64)
}
