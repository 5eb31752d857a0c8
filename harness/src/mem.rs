//! Tracking allocator: per-thread live bytes and peak, with a hard process cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Track;
thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

fn add(n: usize) -> bool {
    let t = TOTAL.fetch_add(n, Relaxed) + n;
    if t > LIMIT.load(Relaxed) {
        TOTAL.fetch_sub(n, Relaxed);
        return false;
    }
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| if v > p.get() { p.set(v) });
    });
    let _ = BIGGEST.try_with(|b| if n > b.get() { b.set(n) });
    true
}
fn sub(n: usize) {
    TOTAL.fetch_sub(n, Relaxed);
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !add(n - l.size()) {
            return std::ptr::null_mut();
        }
        if n < l.size() {
            sub(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}
pub fn limit_current_process(n: usize) {
    LIMIT.store(n, Relaxed);
}
pub fn reset() {
    LIVE.with(|l| PEAK.with(|p| p.set(l.get())));
    BIGGEST.with(|b| b.set(0));
}
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}
pub fn peak() -> isize {
    PEAK.with(|p| p.get())
}
pub fn biggest() -> usize {
    BIGGEST.with(|b| b.get())
}
