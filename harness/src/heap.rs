//! Heap memory in use by this thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn change(by: isize) {
    LIVE.with(|l| {
        let n = l.get() + by;
        l.set(n);
        PEAK.with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
    });
}

pub struct Counted;

#[global_allocator]
static HEAP: Counted = Counted;

unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        change(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        change(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        change(-(l.size() as isize));
        System.dealloc(q, l)
    }
    unsafe fn realloc(&self, q: *mut u8, l: Layout, size: usize) -> *mut u8 {
        // old and new block exist at the same time
        change(size as isize);
        let r = System.realloc(q, l, size);
        change(-(l.size() as isize));
        r
    }
}

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

/// the most that was in use since `begin`
pub fn begin() -> isize {
    PEAK.with(|p| p.set(live()));
    live()
}

pub fn peak() -> isize {
    PEAK.with(|p| p.get())
}
