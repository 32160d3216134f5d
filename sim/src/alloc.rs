//! Counting global allocator: bounds live memory per worker so that an
//! unbounded allocation in the code under test becomes a deterministic crash
//! of the worker process (reported as a violation) instead of an OOM kill.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static ENFORCE: AtomicBool = AtomicBool::new(false);
pub const LIMIT: usize = 1 << 30;

pub fn enforce() {
    ENFORCE.store(true, Relaxed);
}
pub fn reset() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
pub fn peak_delta(base: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(base)
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}

fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    if l > LIMIT && ENFORCE.load(Relaxed) {
        // No allocation here: write a fixed message and abort.
        use std::io::Write;
        let _ = std::io::stderr().write_all(b"SIM-ALLOC-LIMIT exceeded\n");
        std::process::abort();
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            add(n - l.size());
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}
