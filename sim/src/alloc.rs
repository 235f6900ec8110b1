//! Counts the live heap of the code under test (not of the simulator).
use std::alloc::{GlobalAlloc, Layout, System};

use crate::world::{ACTIVE, IN_K};

pub struct Counting;
static mut LIVE: i64 = 0;
static mut COUNT: u64 = 0;
static mut FAIL_OVER: usize = usize::MAX;
pub static mut BIGGEST: usize = 0;

#[inline(always)]
fn on() -> bool {
    unsafe { ACTIVE && !IN_K }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if on() {
            if l.size() > FAIL_OVER {
                return std::ptr::null_mut();
            }
            LIVE += l.size() as i64;
            COUNT += 1;
            if l.size() > BIGGEST {
                BIGGEST = l.size();
            }
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if on() {
            if l.size() > FAIL_OVER {
                return std::ptr::null_mut();
            }
            LIVE += l.size() as i64;
            COUNT += 1;
            if l.size() > BIGGEST {
                BIGGEST = l.size();
            }
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if on() {
            LIVE -= l.size() as i64;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if on() {
            if n > FAIL_OVER {
                return std::ptr::null_mut();
            }
            LIVE += n as i64 - l.size() as i64;
            if n > BIGGEST {
                BIGGEST = n;
            }
        }
        System.realloc(p, l, n)
    }
}
pub fn live() -> u64 {
    unsafe { LIVE.max(0) as u64 }
}
/// From now on the machine refuses single allocations above this size, as one
/// with that much memory would.
pub fn set_limit(n: usize) {
    unsafe { FAIL_OVER = n }
}
