//! Counts the bytes currently allocated by the current thread's calls.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BAL: Cell<i64> = const { Cell::new(0) };
}
pub struct Counting;
// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BAL.try_with(|b| b.set(b.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = BAL.try_with(|b| b.set(b.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = BAL.try_with(|b| b.set(b.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = BAL.try_with(|b| b.set(b.get() + l.size() as i64));
        System.alloc_zeroed(l)
    }
}
#[global_allocator]
static A: Counting = Counting;

pub fn balance() -> i64 {
    BAL.with(|b| b.get())
}
