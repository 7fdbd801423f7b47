//! Counts what the current thread has allocated and not yet freed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

struct Counting;

fn count(n: isize) {
    // not while the thread ends
    let _ = LIVE.try_with(|l| {
        let now = l.get() + n;
        l.set(now);
        let _ = PEAK.try_with(|p| p.set(p.get().max(now)));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// Bytes this thread has allocated and not freed. Only differences mean something.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

/// The most that was allocated at one time while `f` ran, over what was before.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = live();
    PEAK.with(|p| p.set(before));
    let r = f();
    (r, PEAK.with(|p| p.get() - before).max(0) as usize)
}
