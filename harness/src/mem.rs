//! How big the biggest piece of memory is that a thread has asked for.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

pub struct Counting;

fn note(n: usize) {
    let _ = BIGGEST.try_with(|b| {
        if n > b.get() {
            b.set(n);
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

/// What it gives, and the biggest piece it asked for.
pub fn biggest<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = BIGGEST.with(|b| b.replace(0));
    let r = f();
    let n = BIGGEST.with(|b| b.replace(before));
    (r, n)
}
