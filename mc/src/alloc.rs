//! Counts the heap bytes that the current thread holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static HELD: Cell<i64> = const { Cell::new(0) };
}
pub struct Counting;
fn add(n: i64) {
    let _ = HELD.try_with(|h| h.set(h.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// The heap bytes that dropping a value gives back.
pub fn owned<T>(v: T) -> i64 {
    let before = HELD.with(|h| h.get());
    drop(v);
    before - HELD.with(|h| h.get())
}
