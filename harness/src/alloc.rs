//! Counts what is allocated, so that the cost of a call can be observed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn add(n: usize) {
    let now = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    PEAK.fetch_max(now, Relaxed);
}

fn sub(n: usize) {
    LIVE.fetch_sub(n as i64, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        sub(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n);
            sub(l.size());
        }
        q
    }
}

#[global_allocator]
static A: Counting = Counting;

/// Bytes in use.
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}

/// Result of `f`, the bytes it had in use at most and the CPU time of this thread in nanoseconds.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, i64, i64) {
    let before = live();
    PEAK.store(before, Relaxed);
    let t = cpu();
    let r = f();
    let t = cpu() - t;
    (r, PEAK.load(Relaxed) - before, t)
}

fn cpu() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}
