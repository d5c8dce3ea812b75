//! Counting allocator: how much memory the code under test asks for, with a hard cap.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

fn grow(n: usize) -> bool {
    let c = CUR.fetch_add(n, Relaxed) + n;
    if c > CAP.load(Relaxed) {
        CUR.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(c, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            CUR.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

/// Starts a measurement: returns the current use and resets the peak to it.
pub fn mark() -> usize {
    let c = CUR.load(Relaxed);
    PEAK.store(c, Relaxed);
    c
}
/// Peak use above the mark.
pub fn peak_since(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}
/// Bytes in use.
pub fn current() -> usize {
    CUR.load(Relaxed)
}
