//! Counting global allocator: memory bound, failure on request, and extra preemption points.
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static BASE: AtomicUsize = AtomicUsize::new(0);
static BREACHED: AtomicBool = AtomicBool::new(false);

pub const EXIT_MEMORY: i32 = 77;

/// Starts a measured section: more than `limit` additional live bytes end the process with
/// exit status EXIT_MEMORY (the supervisor turns that into a finding).
pub fn arm(limit: usize) {
    let live = LIVE.load(Relaxed);
    BASE.store(live, Relaxed);
    PEAK.store(live, Relaxed);
    LIMIT.store(live.saturating_add(limit), Relaxed);
}

/// Ends a measured section and returns the peak of additional live bytes.
pub fn disarm() -> usize {
    LIMIT.store(usize::MAX, Relaxed);
    PEAK.load(Relaxed).saturating_sub(BASE.load(Relaxed))
}

pub fn count() -> u64 {
    COUNT.load(Relaxed)
}

fn note(add: usize) {
    COUNT.fetch_add(1, Relaxed);
    let l = LIVE.fetch_add(add, Relaxed) + add;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
        if l > LIMIT.load(Relaxed) && !BREACHED.swap(true, Relaxed) {
            crate::os::exit_now(EXIT_MEMORY);
        }
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        sched::alloc_point();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        sched::alloc_point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            note(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
