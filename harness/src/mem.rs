//! Counting allocator: bytes and blocks alive, per process.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

pub struct Counting;
pub static BYTES: AtomicI64 = AtomicI64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
/// largest value of BYTES since peak_reset, if asked for
static PEAK: AtomicI64 = AtomicI64::new(0);
static WATCH: AtomicBool = AtomicBool::new(false);

fn up(n: i64) {
    let b = BYTES.fetch_add(n, Relaxed) + n;
    if WATCH.load(Relaxed) {
        PEAK.fetch_max(b, Relaxed);
    }
}

/// bytes alive now; the peak is watched from now on
pub fn watch() -> i64 {
    let b = BYTES.load(Relaxed);
    PEAK.store(b, Relaxed);
    WATCH.store(true, Relaxed);
    b
}

pub fn peak() -> i64 {
    WATCH.store(false, Relaxed);
    PEAK.load(Relaxed)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            up(l.size() as i64);
            BLOCKS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            up(l.size() as i64);
            BLOCKS.fetch_add(1, Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            up(n as i64 - l.size() as i64);
        }
        q
    }
}

#[global_allocator]
static A: Counting = Counting;

pub fn live() -> (i64, i64) {
    (BYTES.load(Relaxed), BLOCKS.load(Relaxed))
}
