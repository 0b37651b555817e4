//! Developer aid (feature "guard"): every allocation on pages of its own, inaccessible for good once freed.
use std::alloc::{GlobalAlloc, Layout};
pub struct Guard;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = (l.size() + 4095) & !4095;
        let p = simk::raw::sc6(libc::SYS_mmap, 0, n.max(4096), 3, 0x22, usize::MAX, 0);
        if p < 0 && p > -4096 {
            return std::ptr::null_mut();
        }
        // The end of the block lies at the end of the page where alignment allows.
        (p as usize + ((n.max(4096) - l.size()) & !(l.align().max(16) - 1))) as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = ((l.size() + 4095) & !4095).max(4096);
        let a = p as usize & !4095;
        simk::raw::sc6(libc::SYS_mprotect, a, n, 0, 0, 0, 0);
    }
}
#[global_allocator]
static G: Guard = Guard;
