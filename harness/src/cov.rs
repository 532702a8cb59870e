//! Receives the edge callbacks of the instrumented crate under test: counts them (fuel) and keeps
//! a hit map (coverage feedback).

use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

pub const MAP: usize = 1 << 14;
static mut COUNT: u64 = 0;
static mut LIMIT: u64 = u64::MAX;
static mut HITS: [u8; MAP] = [0; MAP];
static NEXT: AtomicU32 = AtomicU32::new(0);

pub const FUEL_EXIT: i32 = 77;

extern "C" {
    fn _exit(c: i32) -> !;
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NEXT.fetch_add(1, Relaxed) + 1;
        }
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    COUNT += 1;
    let i = (*g as usize) & (MAP - 1);
    HITS[i] = HITS[i].saturating_add(1);
    if COUNT > LIMIT {
        _exit(FUEL_EXIT);
    }
}

pub fn guards() -> u32 {
    NEXT.load(Relaxed)
}

pub fn reset(limit: u64) {
    unsafe {
        COUNT = 0;
        LIMIT = limit;
    }
}

pub fn unlimited() -> u64 {
    unsafe {
        LIMIT = u64::MAX;
        COUNT
    }
}

pub fn count() -> u64 {
    unsafe { COUNT }
}

pub fn clear_hits() {
    unsafe {
        let h = &mut *std::ptr::addr_of_mut!(HITS);
        h.fill(0);
    }
}

pub fn hits() -> &'static [u8; MAP] {
    unsafe { &*std::ptr::addr_of!(HITS) }
}
