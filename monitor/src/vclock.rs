//! Virtual wall clock: this binary defines `clock_gettime`, so every reader of CLOCK_REALTIME in the process
//! (std::time::SystemTime, chrono::Utc::now, ...) sees the value set for the calling thread.  All other clocks are real.
use std::cell::Cell;
thread_local! { static FAKE: Cell<Option<(i64, i64)>> = const { Cell::new(None) }; static READS: Cell<u64> = const { Cell::new(0) }; }

pub fn set(secs: i64, nanos: i64) { FAKE.with(|f| f.set(Some((secs, nanos)))); }
pub fn clear() { FAKE.with(|f| f.set(None)); }
/// number of reads of the virtual clock on this thread so far: proves that the code under test consulted it
pub fn reads() -> u64 { READS.with(|r| r.get()) }

#[cfg(feature = "vclock")]
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
        if let Ok(Some((s, n))) = FAKE.try_with(|f| f.get()) {
            let _ = READS.try_with(|r| r.set(r.get() + 1));
            (*ts).tv_sec = s; (*ts).tv_nsec = n;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
