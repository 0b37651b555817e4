//! Fast path of the instrumentation points inserted by the compiler.
use std::cell::Cell;
use std::ptr::null_mut;

pub const NCOV: usize = 1 << 16;
/// Pseudo guard numbers (for hot points) of intercepted calls start here.
pub const SYSG: usize = NCOV - 256;

#[repr(C)]
pub struct Hot {
    pub id: u32,
    pub steps: u64,
    pub next_stop: u64,
}
thread_local! {
    pub static CUR: Cell<*mut Hot> = const { Cell::new(null_mut()) };
}
pub static mut NOW: u64 = 0;
pub static mut NEXT_EV: u64 = u64::MAX;
pub static mut POINTS: u64 = 0;
pub static mut BUDGET: u64 = u64::MAX;
pub static mut TICK: u64 = 2;
pub static mut HOT: [u8; NCOV] = [0; NCOV];
pub static mut COV: [u8; NCOV] = [0; NCOV];
pub static mut NGUARDS: u32 = 0;
pub static mut SLOW: Option<unsafe fn(*mut Hot, usize)> = None;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let th = CUR.with(|c| c.get());
    if th.is_null() {
        return;
    }
    let id = (*g as usize) & (NCOV - 1);
    COV[id] = 1;
    (*th).steps += 1;
    POINTS += 1;
    NOW += TICK;
    if (*th).steps >= (*th).next_stop || HOT[id] != 0 || NOW >= NEXT_EV || POINTS >= BUDGET {
        if let Some(f) = SLOW {
            f(th, id);
        }
    }
}

/// The same for an intercepted call.
pub unsafe fn sys_point(call: usize, ns: u64) {
    let th = CUR.with(|c| c.get());
    let id = SYSG + call;
    (*th).steps += 1;
    POINTS += 1;
    NOW += ns;
    if (*th).steps >= (*th).next_stop || HOT[id] != 0 || NOW >= NEXT_EV || POINTS >= BUDGET {
        if let Some(f) = SLOW {
            f(th, id);
        }
    }
}
