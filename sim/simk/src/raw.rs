//! Raw system calls that bypass every interposed libc symbol.
use std::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    sc6(libc::SYS_futex, addr as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
}
pub unsafe fn exit(code: i32) -> ! {
    loop {
        sc6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
}
pub unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
pub fn errno_set(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
