//! Counting allocator: per-thread live / peak bytes and a hard per-process ceiling.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);
/// above this the process refuses memory, which ends in an abort the parent observes
const CEILING: usize = 3 << 30;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BIGGEST.fetch_max(l.size(), Relaxed);
        let live = LIVE.fetch_add(l.size(), Relaxed) + l.size();
        if live > CEILING {
            LIVE.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(live, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BIGGEST.fetch_max(n, Relaxed);
        let live = LIVE.fetch_add(n, Relaxed) + n;
        if live > CEILING {
            LIVE.fetch_sub(n, Relaxed);
            return std::ptr::null_mut();
        }
        LIVE.fetch_sub(l.size(), Relaxed);
        PEAK.fetch_max(live - l.size().min(live), Relaxed);
        System.realloc(p, l, n)
    }
}
pub fn live() -> usize { LIVE.load(Relaxed) }
/// start a measurement window, returns the live bytes at its start
pub fn reset_peak() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    BIGGEST.store(0, Relaxed);
    l
}
pub fn peak() -> usize { PEAK.load(Relaxed) }
pub fn biggest() -> usize { BIGGEST.load(Relaxed) }
