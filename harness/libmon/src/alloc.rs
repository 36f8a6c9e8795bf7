//! Counting allocator which refuses what no legitimate case needs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub const MAX_ONE: usize = 1 << 30;
pub const MAX_LIVE: usize = 2 << 30;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static BIGGEST: AtomicUsize = AtomicUsize::new(0);

pub struct Limiter;

fn note(size: usize) -> bool {
    BIGGEST.fetch_max(size, Relaxed);
    if size > MAX_ONE {
        return false;
    }
    let now = LIVE.fetch_add(size, Relaxed) + size;
    PEAK.fetch_max(now, Relaxed);
    if now > MAX_LIVE {
        LIVE.fetch_sub(size, Relaxed);
        return false;
    }
    true
}

unsafe impl GlobalAlloc for Limiter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !note(new) {
            return std::ptr::null_mut();
        }
        let r = System.realloc(p, l, new);
        LIVE.fetch_sub(if r.is_null() { new } else { l.size() }, Relaxed);
        r
    }
}

/// Start measuring: returns the live bytes now.
pub fn mark() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    BIGGEST.store(0, Relaxed);
    l
}
/// Most bytes above the mark, and biggest single request, since `mark`.
pub fn since(mark: usize) -> (usize, usize) {
    (PEAK.load(Relaxed).saturating_sub(mark), BIGGEST.load(Relaxed))
}
