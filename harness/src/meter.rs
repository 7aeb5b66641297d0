//! Counts the memory the current thread takes from the allocator and gives back.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TAKEN: Cell<u64> = const { Cell::new(0) };
}

struct Counting;

#[inline]
fn note(taken: usize, live: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + live));
    let _ = TAKEN.try_with(|c| c.set(c.get() + taken as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(0, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

/// The bytes that were taken and not given back.
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

/// All bytes that were ever taken.
pub fn taken() -> u64 {
    TAKEN.with(|c| c.get())
}
