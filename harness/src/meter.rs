//! Heap and CPU time of one stage; only counts in processes that ask for it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static CUR: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static T0: AtomicU64 = AtomicU64::new(0);

fn add(n: usize) {
    if ON.load(Relaxed) {
        let c = CUR.fetch_add(n as i64, Relaxed) + n as i64;
        PEAK.fetch_max(c, Relaxed);
    }
}
fn sub(n: usize) {
    if ON.load(Relaxed) {
        CUR.fetch_sub(n as i64, Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        let q = unsafe { System.realloc(p, l, n) };
        sub(l.size());
        q
    }
}
fn cpu_ms() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}
pub fn start() {
    T0.store(cpu_ms(), Relaxed);
    ON.store(true, Relaxed);
    CUR.store(0, Relaxed);
    PEAK.store(0, Relaxed);
}
/// (CPU milliseconds, peak bytes above the start) of the stage
pub fn stop() -> (u64, u64) {
    let r = (cpu_since_start(), PEAK.load(Relaxed).max(0) as u64);
    T0.store(u64::MAX, Relaxed);
    r
}
pub fn cpu_since_start() -> u64 {
    match T0.load(Relaxed) {
        0 | u64::MAX => 0,
        t => cpu_ms().saturating_sub(t),
    }
}
