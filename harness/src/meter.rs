//! Counts the memory that is in use, to tell how much a call needed at most.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

struct Meter;

static USED: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BASE: AtomicUsize = AtomicUsize::new(0);
static MOST: AtomicUsize = AtomicUsize::new(0);

fn more(n: usize) {
    PEAK.fetch_max(USED.fetch_add(n, Relaxed) + n, Relaxed);
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if !p.is_null() { more(layout.size()); }
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(layout);
        if !p.is_null() { more(layout.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        USED.fetch_sub(layout.size(), Relaxed);
        System.dealloc(p, layout)
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        let q = System.realloc(p, layout, size);
        if !q.is_null() {
            USED.fetch_sub(layout.size(), Relaxed);
            more(size);
        }
        q
    }
}

#[global_allocator]
static METER: Meter = Meter;

/// Forgets what was needed so far.
pub fn reset() {
    MOST.store(0, Relaxed);
}

/// Runs `f` and notes what it needed.
pub fn metered<T>(f: impl FnOnce() -> T) -> T {
    BASE.store(USED.load(Relaxed), Relaxed);
    PEAK.store(USED.load(Relaxed), Relaxed);
    let x = f();
    MOST.fetch_max(PEAK.load(Relaxed).saturating_sub(BASE.load(Relaxed)), Relaxed);
    x
}

/// What the calls since the last reset needed at most, in kilobytes.
pub fn kilobytes() -> usize {
    MOST.load(Relaxed).min(1 << 40) >> 10
}
