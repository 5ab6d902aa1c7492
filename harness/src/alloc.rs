//! An allocator that knows how much each thread holds.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}
pub struct Counting;

fn add(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| {
        let (a, b) = l.get();
        l.set((a + bytes, b + blocks));
    });
}
/// Bytes and blocks this thread has allocated and not freed.
pub fn live() -> (i64, i64) {
    LIVE.with(|l| l.get())
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, 0);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;
