//! Counts the memory each thread allocates and frees.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local!(static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) });
/// Blocks and bytes allocated minus freed by the calling thread.
pub fn live() -> (i64, i64) {
    LIVE.with(Cell::get)
}
fn add(n: i64, b: i64) {
    // Memory of the simulator's own events belongs to no thread.
    if unsafe { simk::kern::IN_EV } {
        return;
    }
    let _ = LIVE.try_with(|l| l.set((l.get().0 + n, l.get().1 + b)));
}
pub struct Count;
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[cfg(not(feature = "guard"))]
#[global_allocator]
static C: Count = Count;
