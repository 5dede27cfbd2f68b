//! Counts what is allocated.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static BIG: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    BIG.fetch_max(n, Relaxed);
    PEAK.fetch_max(CUR.fetch_add(n, Relaxed).wrapping_add(n), Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        CUR.fetch_sub(l.size(), Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}
/// Starts a measurement; the result gives peak and largest single allocation since.
pub fn start() -> impl FnOnce() -> (usize, usize, u128) {
    let base = CUR.load(Relaxed);
    PEAK.store(base, Relaxed);
    BIG.store(0, Relaxed);
    let t = std::time::Instant::now();
    move || (PEAK.load(Relaxed).saturating_sub(base), BIG.load(Relaxed), t.elapsed().as_millis())
}
