//! Memory of the calling thread, counted by the allocator (installed in main.rs): bytes in use and
//! their peak, and how deep the stack gets.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static USED: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LOW: Cell<usize> = const { Cell::new(0) };
}

/// Notes how far down the stack the caller is (called by symbols, lexemes and the allocator).
#[inline]
pub fn touch() {
    let here = 0u8;
    let a = std::hint::black_box(&here) as *const u8 as usize;
    if a < LOW.get() {
        LOW.set(a);
    }
}
/// the most stack that `f` is seen to use
#[inline(never)]
pub fn stack<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let here = 0u8;
    let top = std::hint::black_box(&here) as *const u8 as usize;
    LOW.set(top);
    let r = f();
    let low = LOW.get();
    LOW.set(0);
    (r, top - low)
}

pub struct Counting;

#[inline]
fn add(n: i64) {
    touch();
    let u = USED.get() + n;
    USED.set(u);
    if u > PEAK.get() {
        PEAK.set(u);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        touch();
        USED.set(USED.get() - l.size() as i64);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // both blocks exist while one is copied to the other
        add(n as i64);
        USED.set(USED.get() - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// bytes in use by this thread
pub fn used() -> i64 {
    USED.get()
}
/// the most that `f` had in use beyond what there was before
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let before = USED.get();
    PEAK.set(before);
    let r = f();
    (r, PEAK.get() - before)
}
