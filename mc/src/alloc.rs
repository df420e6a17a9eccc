//! Counts the bytes each thread has in use.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static IN_USE: Cell<i64> = const { Cell::new(0) };
}

struct Counting;
#[global_allocator]
static COUNTING: Counting = Counting;

fn add(n: i64) {
    let _ = IN_USE.try_with(|c| c.set(c.get() + n));
}

// Safety: every call is handed on to the system's allocator as it is.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn in_use() -> i64 {
    IN_USE.with(|c| c.get())
}
