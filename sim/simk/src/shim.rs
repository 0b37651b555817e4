//! libc entry points.  In a simulated thread they act on the simulated kernel, otherwise on the real one.
#![allow(clippy::missing_safety_doc, non_upper_case_globals)]
use crate::kern::*;
use crate::raw::*;
use crate::vfs::{self, *};
use libc::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

type F = unsafe extern "C" fn();

// Numbers of the intercepted calls (pseudo guards).
const C_CLOCK: usize = 1;
const C_FUTEX_WAIT: usize = 2;
const C_FUTEX_WAKE: usize = 3;
const C_EPCTL: usize = 4;
const C_EPWAIT: usize = 5;
const C_EVFD: usize = 6;
const C_TFD: usize = 7;
const C_READ: usize = 8;
const C_WRITE: usize = 9;
const C_SOCK: usize = 10;
const C_BIND: usize = 11;
const C_CONN: usize = 12;
const C_ACC: usize = 13;
const C_SOCKOPT: usize = 14;
const C_IOCTL: usize = 15;
const C_CLOSE: usize = 16;
const C_SLEEP: usize = 17;
const C_YIELD: usize = 18;
const C_THREAD: usize = 19;
const C_SHUT: usize = 20;
const C_FCNTL: usize = 21;
const C_POLL: usize = 22;
pub const C_USER: usize = 40;
pub const C_WAKE: usize = 41;
pub const C_WDROP: usize = 42;
pub const C_WCLONE: usize = 43;

extern "C" {
    fn dlvsym(h: *mut c_void, name: *const c_char, ver: *const c_char) -> *mut c_void;
}
static REAL_DLSYM: AtomicUsize = AtomicUsize::new(0);
static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);
static REAL_DETACH: AtomicUsize = AtomicUsize::new(0);
static KEY: AtomicUsize = AtomicUsize::new(usize::MAX);

unsafe fn real_dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void {
    let mut p = REAL_DLSYM.load(SeqCst);
    if p == 0 {
        for v in [c"GLIBC_2.34", c"GLIBC_2.2.5", c"GLIBC_2.17"] {
            p = dlvsym(RTLD_NEXT, c"dlsym".as_ptr(), v.as_ptr()) as usize;
            if p != 0 {
                break;
            }
        }
        REAL_DLSYM.store(p, SeqCst);
    }
    let f: unsafe extern "C" fn(*mut c_void, *const c_char) -> *mut c_void = std::mem::transmute(p);
    f(h, name)
}
unsafe fn next(name: &std::ffi::CStr, cell: &AtomicUsize) -> usize {
    let mut p = cell.load(SeqCst);
    if p == 0 {
        p = real_dlsym(RTLD_NEXT, name.as_ptr()) as usize;
        cell.store(p, SeqCst);
    }
    p
}

pub fn init() {
    unsafe {
        next(c"pthread_create", &REAL_CREATE);
        next(c"pthread_join", &REAL_JOIN);
        next(c"pthread_detach", &REAL_DETACH);
        if KEY.load(SeqCst) == usize::MAX {
            let mut key: pthread_key_t = 0;
            pthread_key_create(&mut key, Some(thread_dtor));
            KEY.store(key as usize, SeqCst);
        }
    }
}

macro_rules! pass {
    ($n:expr $(, $a:expr)*) => {{
        let a = [$($a as usize),*];
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        ret(sc6($n, g(0), g(1), g(2), g(3), g(4), g(5)))
    }};
}
#[inline(always)]
fn sim() -> bool {
    in_sim()
}
#[inline(always)]
fn vfd(fd: i32) -> bool {
    fd >= VFD0 && in_sim()
}
fn file(fd: i32) -> Result<usize, isize> {
    k().vfs.file_of(fd).ok_or(-(EBADF as isize))
}
unsafe fn rr(r: isize) -> isize {
    ret(r)
}
fn res(r: Result<usize, i32>) -> isize {
    match r {
        Ok(n) => n as isize,
        Err(e) => -(e as isize),
    }
}

// ---------------------------------------------------------------- time
unsafe fn put_ts(ts: *mut timespec, ns: u64) {
    (*ts).tv_sec = (ns / 1_000_000_000) as i64;
    (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
}
unsafe fn ts_ns(ts: *const timespec) -> u64 {
    ((*ts).tv_sec.max(0) as u64).saturating_mul(1_000_000_000).saturating_add((*ts).tv_nsec as u64)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if !sim() {
        return pass!(SYS_clock_gettime, id, ts) as c_int;
    }
    sys_point(C_CLOCK);
    let off = if id == CLOCK_REALTIME { 1_700_000_000_000_000_000 } else { 0 };
    let th = cur();
    if th.exact != 0 {
        simp::NOW = simp::NOW.max(th.exact);
        th.exact = 0;
    }
    if th.first_clock.is_none() {
        th.first_clock = Some(now());
    }
    th.last_clock = now();
    cur().clock_reads += 1;
    put_ts(ts, now() + off);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if !sim() {
        return pass!(SYS_nanosleep, req, rem) as c_int;
    }
    sys_point(C_SLEEP);
    let d = now().saturating_add(ts_ns(req));
    k().block(cur(), Wait::Sleep, Some(d), true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if !sim() {
        let r = sc6(SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0);
        return -r as c_int;
    }
    sys_point(C_SLEEP);
    let d = if flags & TIMER_ABSTIME != 0 { ts_ns(req) } else { now().saturating_add(ts_ns(req)) };
    k().block(cur(), Wait::Sleep, Some(d), true);
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !sim() {
        return pass!(SYS_sched_yield) as c_int;
    }
    sys_point(C_YIELD);
    let kk = k();
    let th = cur();
    if let Some(t) = kk.next_runnable(th.hot.id) {
        kk.switch(th, t);
    }
    0
}

// ---------------------------------------------------------------- futex and friends
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, g: usize) -> c_long {
    if !sim() {
        return ret(sc6(n, a, b, c, d, e, g)) as c_long;
    }
    match n {
        SYS_futex => {
            let op = b as i32 & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
            match op {
                FUTEX_WAIT | FUTEX_WAIT_BITSET => {
                    sys_point(C_FUTEX_WAIT);
                    let dl = if d == 0 {
                        None
                    } else if op == FUTEX_WAIT {
                        Some(now().saturating_add(ts_ns(d as *const timespec)))
                    } else {
                        let mut t = ts_ns(d as *const timespec);
                        if b as i32 & FUTEX_CLOCK_REALTIME != 0 {
                            t = t.saturating_sub(1_700_000_000_000_000_000);
                        }
                        Some(t)
                    };
                    rr(k().futex_wait(a, c as u32, dl)) as c_long
                }
                FUTEX_WAKE | FUTEX_WAKE_BITSET => {
                    sys_point(C_FUTEX_WAKE);
                    rr(k().futex_wake(a, c as u32)) as c_long
                }
                _ => k().fail("*", "HARNESS", &format!("futex operation {} not simulated", op)),
            }
        }
        SYS_getrandom => rand_fill(a as *mut u8, b) as c_long,
        SYS_epoll_pwait2 => epoll_pwait2(a as i32, b as *mut epoll_event, c as i32, d as *const timespec, std::ptr::null()) as c_long,
        SYS_eventfd2 => eventfd(a as u32, b as i32) as c_long,
        SYS_accept4 => accept4(a as i32, b as *mut sockaddr, c as *mut socklen_t, d as i32) as c_long,
        SYS_gettid => 1000 + cur().hot.id as c_long,
        SYS_timerfd_create => timerfd_create(a as i32, b as i32) as c_long,
        SYS_timerfd_settime => timerfd_settime(a as i32, b as i32, c as *const itimerspec, d as *mut itimerspec) as c_long,
        _ => k().fail("*", "HARNESS", &format!("syscall {} not simulated", n)),
    }
}
unsafe fn rand_fill(p: *mut u8, n: usize) -> isize {
    let kk = k();
    for i in 0..n {
        kk.randctr = crate::rng::mix(kk.randctr, i as u64 + 1);
        *p.add(i) = kk.randctr as u8;
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if !sim() {
        return pass!(SYS_getrandom, p, n, flags);
    }
    rand_fill(p as *mut u8, n)
}

// ---------------------------------------------------------------- threads
struct Start {
    th: *mut Th,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(p as *mut Start) };
    let th = unsafe { &mut *s.th };
    wait_baton(&th.word);
    simp::CUR.with(|c| c.set(s.th as *mut simp::Hot));
    unsafe { pthread_setspecific(KEY.load(SeqCst) as pthread_key_t, s.th as *mut c_void) };
    let (f, arg) = (s.f, s.arg);
    drop(s);
    f(arg)
}
unsafe extern "C" fn thread_dtor(p: *mut c_void) {
    let th = p as *mut Th;
    if simp::CUR.with(|c| c.get()).is_null() {
        return;
    }
    k().thread_end(&mut *th);
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real: unsafe extern "C" fn(*mut pthread_t, *const pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int =
        std::mem::transmute(next(c"pthread_create", &REAL_CREATE));
    if !sim() {
        return real(t, attr, f, arg);
    }
    sys_point(C_THREAD);
    let kk = k();
    if kk.no_threads {
        kk.count(f::SCARCE_TH);
        return EAGAIN;
    }
    let th = kk.new_thread("thread");
    let p: *mut Th = th;
    let s = Box::into_raw(Box::new(Start { th: p, f, arg }));
    let r = real(t, attr, tramp, s as *mut c_void);
    if r != 0 {
        kk.fail("*", "HARNESS", "pthread_create failed");
    }
    (*p).pthread = *t;
    kk.log(|| format!("thread t{} created", (*p).hot.id));
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    let real: unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int = std::mem::transmute(next(c"pthread_join", &REAL_JOIN));
    if sim() {
        sys_point(C_THREAD);
        let kk = k();
        let id = kk.ths.iter().find(|x| x.pthread == t && x.hot.id != 0 && !x.joined).map(|x| x.hot.id);
        if let Some(id) = id {
            while kk.ths[id as usize].st != St::Done {
                kk.block(cur(), Wait::Join(id), None, false);
            }
            kk.ths[id as usize].joined = true;
        }
    }
    real(t, out)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(t: pthread_t) -> c_int {
    let real: unsafe extern "C" fn(pthread_t) -> c_int = std::mem::transmute(next(c"pthread_detach", &REAL_DETACH));
    if sim() {
        for x in k().ths.iter_mut() {
            if x.pthread == t && !x.joined {
                x.joined = true;
            }
        }
    }
    real(t)
}

// ---------------------------------------------------------------- dlsym
#[no_mangle]
pub unsafe extern "C" fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void {
    let n = std::ffi::CStr::from_ptr(name).to_bytes();
    if h == RTLD_DEFAULT {
        for (s, f) in TABLE.iter() {
            if s.as_bytes() == n {
                return *f as *const () as *mut c_void;
            }
        }
        if n.starts_with(b"__clock_gettime64") || n.starts_with(b"__timerfd") {
            return std::ptr::null_mut();
        }
    }
    real_dlsym(h, name)
}

// ---------------------------------------------------------------- epoll
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !sim() {
        return pass!(SYS_epoll_create1, flags) as c_int;
    }
    sys_point(C_SOCK);
    let kk = k();
    let id = kk.vfs.alloc(Kind::Epoll(vec![]), false);
    let r = kk.vfs.install(id);
    kk.log(|| format!("epoll_create -> {:?}", r));
    kk.vfs.epolls += r.is_ok() as u64;
    rr(r.map_or_else(|e| -(e as isize), |v| v as isize)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if !vfd(ep) {
        return pass!(SYS_epoll_ctl, ep, op, fd, ev) as c_int;
    }
    sys_point(C_EPCTL);
    let (e, d) = if ev.is_null() {
        (0, 0)
    } else {
        (std::ptr::addr_of!((*ev).events).read_unaligned(), std::ptr::addr_of!((*ev).u64).read_unaligned())
    };
    rr(vfs::epoll_ctl(ep, op, fd, e, d)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, ev: *mut epoll_event, max: c_int, ms: c_int) -> c_int {
    if !vfd(ep) {
        return pass!(SYS_epoll_wait, ep, ev, max, ms) as c_int;
    }
    sys_point(C_EPWAIT);
    let to = if ms < 0 { None } else { Some(ms as u64 * 1_000_000) };
    rr(vfs::epoll_wait(ep, ev, max, to)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait(ep: c_int, ev: *mut epoll_event, max: c_int, ms: c_int, ss: *const sigset_t) -> c_int {
    if !vfd(ep) {
        return pass!(SYS_epoll_pwait, ep, ev, max, ms, ss, 8) as c_int;
    }
    epoll_wait(ep, ev, max, ms)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_pwait2(ep: c_int, ev: *mut epoll_event, max: c_int, ts: *const timespec, ss: *const sigset_t) -> c_int {
    if !vfd(ep) {
        return pass!(SYS_epoll_pwait2, ep, ev, max, ts, ss, 8) as c_int;
    }
    sys_point(C_EPWAIT);
    let to = if ts.is_null() { None } else { Some(ts_ns(ts)) };
    rr(vfs::epoll_wait(ep, ev, max, to)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    if !sim() {
        return pass!(SYS_eventfd2, init, flags) as c_int;
    }
    sys_point(C_EVFD);
    let kk = k();
    if kk.fault(f::NO_EVENTFD, 1) != 0 {
        return rr(-(ENOSYS as isize)) as c_int;
    }
    let id = kk.vfs.alloc(Kind::EventFd(init as u64, flags & EFD_SEMAPHORE != 0), flags & EFD_NONBLOCK != 0);
    rr(kk.vfs.install(id).map_or_else(|e| -(e as isize), |v| v as isize)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_create(clk: c_int, flags: c_int) -> c_int {
    if !sim() {
        return pass!(SYS_timerfd_create, clk, flags) as c_int;
    }
    sys_point(C_TFD);
    let kk = k();
    if kk.fault(f::NO_TIMERFD, 1) != 0 {
        return rr(-(ENOSYS as isize)) as c_int;
    }
    let id = kk.vfs.alloc(Kind::Timer { ticks: 0, gen: 0, interval: 0 }, flags & TFD_NONBLOCK != 0);
    rr(kk.vfs.install(id).map_or_else(|e| -(e as isize), |v| v as isize)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn timerfd_settime(fd: c_int, flags: c_int, new: *const itimerspec, old: *mut itimerspec) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_timerfd_settime, fd, flags, new, old) as c_int;
    }
    sys_point(C_TFD);
    let id = match file(fd) {
        Ok(i) => i,
        Err(e) => return rr(e) as c_int,
    };
    timer_set(id, flags & TFD_TIMER_ABSTIME != 0, ts_ns(&(*new).it_value), ts_ns(&(*new).it_interval));
    0
}

// ---------------------------------------------------------------- read / write
unsafe fn do_read(fd: c_int, buf: *mut u8, n: usize, peek: bool) -> isize {
    sys_point(C_READ);
    let id = match file(fd) {
        Ok(i) => i,
        Err(e) => return e,
    };
    loop {
        let b = std::slice::from_raw_parts_mut(buf, n);
        let kk = k();
        let dg = matches!(&kk.vfs.files[id].kind, Kind::Sock(s) if !s.stream);
        let mut from = Addr::None;
        let r = if dg {
            dgram_recv(id, b, peek).map(|x| {
                from = x.1;
                x.0
            })
        } else {
            nonblocking_read(id, b, peek)
        };
        if r == Err(EAGAIN) && !kk.vfs.files[id].nonblock {
            kk.block(cur(), Wait::File(id), None, false);
            continue;
        }
        kk.log(|| format!("read fd={} -> {:?}", fd, r));
        vfs::rec(if peek { b'p' } else { b'r' }, id, res(r), &b[..r.unwrap_or(0).min(n)], from, 0);
        return res(r);
    }
}
unsafe fn do_write(fd: c_int, buf: *const u8, n: usize, to: Option<Addr>) -> isize {
    sys_point(C_WRITE);
    let id = match file(fd) {
        Ok(i) => i,
        Err(e) => return e,
    };
    loop {
        let b = std::slice::from_raw_parts(buf, n);
        let kk = k();
        let dg = matches!(&kk.vfs.files[id].kind, Kind::Sock(s) if !s.stream);
        let r = if dg { dgram_send(id, b, to.clone()) } else { nonblocking_write(id, b) };
        if r == Err(EAGAIN) && !kk.vfs.files[id].nonblock {
            kk.block(cur(), Wait::File(id), None, false);
            continue;
        }
        kk.log(|| format!("write fd={} n={} -> {:?}", fd, n, r));
        vfs::rec(b'w', id, res(r), &b[..r.unwrap_or(0).min(n)], to.unwrap_or(Addr::None), 0);
        return res(r);
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_read, fd, buf, n);
    }
    rr(do_read(fd, buf as *mut u8, n, false))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_write, fd, buf, n);
    }
    rr(do_write(fd, buf as *const u8, n, None))
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_recvfrom, fd, buf, n, flags, 0, 0);
    }
    rr(do_read(fd, buf as *mut u8, n, flags & MSG_PEEK != 0))
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_sendto, fd, buf, n, flags, 0, 0);
    }
    rr(do_write(fd, buf as *const u8, n, None))
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, al: *mut socklen_t) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_recvfrom, fd, buf, n, flags, a, al);
    }
    let id = match file(fd) {
        Ok(i) => i,
        Err(e) => return rr(e),
    };
    if matches!(&k().vfs.files[id].kind, Kind::Sock(s) if s.stream) {
        if !al.is_null() {
            *al = 0;
        }
        return rr(do_read(fd, buf as *mut u8, n, flags & MSG_PEEK != 0));
    }
    sys_point(C_READ);
    loop {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        let kk = k();
        let r = dgram_recv(id, b, flags & MSG_PEEK != 0);
        match r {
            Err(EAGAIN) if !kk.vfs.files[id].nonblock => {
                kk.block(cur(), Wait::File(id), None, false);
            }
            Err(e) => {
                vfs::rec(if flags & MSG_PEEK != 0 { b'p' } else { b'r' }, id, -(e as isize), &[], Addr::None, 0);
                return rr(-(e as isize));
            }
            Ok((m, from, full)) => {
                vfs::rec(if flags & MSG_PEEK != 0 { b'p' } else { b'r' }, id, m as isize, &b[..m], from.clone(), 0);
                let fam = kk.vfs.sock(id).fam;
                put_addr(&from, fam, a, al);
                kk.log(|| format!("recvfrom fd={} -> {} from {:?}", fd, m, from));
                return if flags & MSG_TRUNC != 0 { full as isize } else { m as isize };
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, al: socklen_t) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_sendto, fd, buf, n, flags, a, al);
    }
    let to = parse_addr(a, al);
    rr(do_write(fd, buf as *const u8, n, if a.is_null() { None } else { Some(to) }))
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_readv, fd, iov, cnt);
    }
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    let total: usize = v.iter().map(|x| x.iov_len).sum();
    let mut tmp = vec![0u8; total];
    let r = do_read(fd, tmp.as_mut_ptr(), total, false);
    if r > 0 {
        let mut off = 0;
        for x in v {
            let m = x.iov_len.min(r as usize - off);
            std::ptr::copy_nonoverlapping(tmp.as_ptr().add(off), x.iov_base as *mut u8, m);
            off += m;
            if off == r as usize {
                break;
            }
        }
    }
    rr(r)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_writev, fd, iov, cnt);
    }
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    let mut tmp = vec![];
    for x in v {
        if x.iov_len > 0 {
            tmp.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
    }
    rr(do_write(fd, tmp.as_ptr(), tmp.len(), None))
}
#[no_mangle]
pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, flags: c_int) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_recvmsg, fd, m, flags);
    }
    let io = &*(*m).msg_iov;
    let mut al = (*m).msg_namelen;
    let r = recvfrom(fd, io.iov_base, io.iov_len, flags, (*m).msg_name as *mut sockaddr, &mut al);
    if r >= 0 {
        (*m).msg_namelen = al;
        (*m).msg_controllen = 0;
        (*m).msg_flags = 0;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    if !vfd(fd) {
        return pass!(SYS_sendmsg, fd, m, flags);
    }
    let io = &*(*m).msg_iov;
    sendto(fd, io.iov_base, io.iov_len, flags, (*m).msg_name as *const sockaddr, (*m).msg_namelen)
}

// ---------------------------------------------------------------- sockets
#[no_mangle]
pub unsafe extern "C" fn socket(fam: c_int, ty: c_int, proto: c_int) -> c_int {
    if !sim() {
        return pass!(SYS_socket, fam, ty, proto) as c_int;
    }
    sys_point(C_SOCK);
    let kk = k();
    let v = kk.fault(f::SOCKET, 3);
    if v == 1 || v == 2 {
        vfs::rec(b's', 0, -(if v == 1 { EMFILE } else { ENOBUFS } as isize), &[], Addr::None, 0);
        return rr(-(if v == 1 { EMFILE } else { ENOBUFS } as isize)) as c_int;
    }
    let stream = ty & 0xf == SOCK_STREAM;
    let s = kk.vfs.new_sock(fam, stream);
    let id = kk.vfs.alloc(Kind::Sock(Box::new(s)), ty & SOCK_NONBLOCK != 0);
    let r = kk.vfs.install(id).map_or_else(|e| -(e as isize), |v| v as isize);
    vfs::rec(b's', id, r, &[], Addr::None, id);
    kk.log(|| format!("socket -> {}", r));
    rr(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(fam: c_int, ty: c_int, proto: c_int, sv: *mut c_int) -> c_int {
    if !sim() {
        return pass!(SYS_socketpair, fam, ty, proto, sv) as c_int;
    }
    sys_point(C_SOCK);
    let v = k().fault(f::SOCKET, 2);
    if v != 0 {
        return rr(-(EMFILE as isize)) as c_int;
    }
    match pair(AF_UNIX, ty & 0xf == SOCK_STREAM, ty & SOCK_NONBLOCK != 0) {
        Ok((a, b)) => {
            *sv = a;
            *sv.add(1) = b;
            0
        }
        Err(e) => rr(-(e as isize)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pipe(p: *mut c_int) -> c_int {
    pipe2(p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn pipe2(p: *mut c_int, flags: c_int) -> c_int {
    if !sim() {
        return pass!(SYS_pipe2, p, flags) as c_int;
    }
    sys_point(C_SOCK);
    match vfs::pipe(flags & O_NONBLOCK != 0) {
        Ok((r, w)) => {
            *p = r;
            *p.add(1) = w;
            0
        }
        Err(e) => rr(-(e as isize)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, al: socklen_t) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_bind, fd, a, al) as c_int;
    }
    sys_point(C_BIND);
    match file(fd) {
        Ok(id) => rr(vfs::bind(id, parse_addr(a, al))) as c_int,
        Err(e) => rr(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_listen, fd, n) as c_int;
    }
    sys_point(C_BIND);
    match file(fd) {
        Ok(id) => rr(vfs::listen(id, n)) as c_int,
        Err(e) => rr(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, al: socklen_t) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_connect, fd, a, al) as c_int;
    }
    sys_point(C_CONN);
    match file(fd) {
        Ok(id) => {
            let dst = parse_addr(a, al);
            let r = vfs::connect(id, dst.clone());
            vfs::rec(b'c', id, r, &[], dst.clone(), 0);
            k().log(|| format!("connect fd={} to {:?} -> {}", fd, dst, r));
            rr(r) as c_int
        }
        Err(e) => rr(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, al: *mut socklen_t, flags: c_int) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_accept4, fd, a, al, flags) as c_int;
    }
    sys_point(C_ACC);
    let id = match file(fd) {
        Ok(i) => i,
        Err(e) => return rr(e) as c_int,
    };
    loop {
        let kk = k();
        match accept_nb(id) {
            Err(EAGAIN) if !kk.vfs.files[id].nonblock => {
                kk.block(cur(), Wait::File(id), None, false);
            }
            Err(e) => {
                kk.log(|| format!("accept fd={} -> errno {}", fd, e));
                vfs::rec(b'a', id, -(e as isize), &[], Addr::None, 0);
                return rr(-(e as isize)) as c_int;
            }
            Ok(q) => {
                kk.vfs.files[q].nonblock = flags & SOCK_NONBLOCK != 0;
                kk.vfs.files[q].refs -= 1;
                let r = match kk.vfs.install(q) {
                    Ok(n) => n as isize,
                    Err(e) => {
                        kk.vfs.files[q].refs += 1;
                        kk.vfs.sock(id).queue.push_front(q);
                        -(e as isize)
                    }
                };
                if r >= 0 {
                    let pa = kk.vfs.sock(q).paddr.clone();
                    let fam = kk.vfs.sock(q).fam;
                    put_addr(&pa, fam, a, al);
                }
                kk.log(|| format!("accept fd={} -> {}", fd, r));
                vfs::rec(b'a', id, r, &[], kk.vfs.sock(q).paddr.clone(), q);
                return rr(r) as c_int;
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, al: *mut socklen_t) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_accept, fd, a, al) as c_int;
    }
    accept4(fd, a, al, 0)
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, al: *mut socklen_t) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_getsockname, fd, a, al) as c_int;
    }
    sys_point(C_SOCKOPT);
    match file(fd) {
        Ok(id) => {
            let s = k().vfs.sock(id);
            let (l, fam) = (s.local.clone(), s.fam);
            put_addr(&l, fam, a, al);
            0
        }
        Err(e) => rr(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, al: *mut socklen_t) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_getpeername, fd, a, al) as c_int;
    }
    sys_point(C_SOCKOPT);
    match file(fd) {
        Ok(id) => {
            let s = k().vfs.sock(id);
            let ok = if s.stream { s.st == SSt::Conn && !(s.was_reset && s.fam != AF_UNIX) } else { s.paddr != Addr::None || s.peer.is_some() };
            let (l, fam) = (s.paddr.clone(), s.fam);
            if !ok {
                return rr(-(ENOTCONN as isize)) as c_int;
            }
            put_addr(&l, fam, a, al);
            0
        }
        Err(e) => rr(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *mut c_void, l: *mut socklen_t) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_getsockopt, fd, lvl, opt, v, l) as c_int;
    }
    sys_point(C_SOCKOPT);
    let id = match file(fd) {
        Ok(i) => i,
        Err(e) => return rr(e) as c_int,
    };
    let kk = k();
    if lvl == SOL_SOCKET && opt == SO_ERROR {
        let s = kk.vfs.sock(id);
        let e = s.err;
        s.err = 0;
        *(v as *mut c_int) = e;
        if e != 0 {
            changed(id);
        }
    } else {
        *(v as *mut c_int) = 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, opt: c_int, v: *const c_void, l: socklen_t) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_setsockopt, fd, lvl, opt, v, l) as c_int;
    }
    sys_point(C_SOCKOPT);
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_shutdown, fd, how) as c_int;
    }
    sys_point(C_SHUT);
    match file(fd) {
        Ok(id) => rr(vfs::shutdown(id, how)) as c_int,
        Err(e) => rr(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_ioctl, fd, req, arg) as c_int;
    }
    sys_point(C_IOCTL);
    match file(fd) {
        Ok(id) => {
            if req == FIONBIO {
                let kk = k();
                if kk.vfs.is_user(id) && kk.fault(f::FIONBIO, 1) != 0 {
                    kk.vfs.files[id].nb_fail += 1;
                    return rr(-(ENOTTY as isize)) as c_int;
                }
                kk.vfs.files[id].nonblock = *(arg as *const c_int) != 0;
                return 0;
            }
            rr(-(ENOTTY as isize)) as c_int
        }
        Err(e) => rr(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_fcntl, fd, cmd, arg) as c_int;
    }
    sys_point(C_FCNTL);
    let id = match file(fd) {
        Ok(i) => i,
        Err(e) => return rr(e) as c_int,
    };
    let kk = k();
    match cmd {
        F_GETFL => O_RDWR | if kk.vfs.files[id].nonblock { O_NONBLOCK } else { 0 },
        F_SETFL => {
            if kk.vfs.is_user(id) && kk.fault(f::FIONBIO, 1) != 0 {
                kk.vfs.files[id].nb_fail += 1;
                return rr(-(ENOTTY as isize)) as c_int;
            }
            kk.vfs.files[id].nonblock = arg as i32 & O_NONBLOCK != 0;
            0
        }
        F_GETFD => FD_CLOEXEC,
        F_SETFD => 0,
        F_DUPFD | F_DUPFD_CLOEXEC => rr(kk.vfs.install(id).map_or_else(|e| -(e as isize), |v| v as isize)) as c_int,
        _ => rr(-(EINVAL as isize)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_dup, fd) as c_int;
    }
    fcntl(fd, F_DUPFD, 0)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !vfd(fd) {
        return pass!(SYS_close, fd) as c_int;
    }
    sys_point(C_CLOSE);
    rr(vfs::close(fd)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, ms: c_int) -> c_int {
    if !sim() || n == 0 || (*fds).fd < VFD0 {
        return pass!(SYS_poll, fds, n, ms) as c_int;
    }
    sys_point(C_POLL);
    let dl = if ms < 0 { None } else { Some(now() + ms as u64 * 1_000_000) };
    loop {
        let kk = k();
        let mut cnt = 0;
        for i in 0..n as usize {
            let p = &mut *fds.add(i);
            p.revents = 0;
            if let Some(id) = kk.vfs.file_of(p.fd) {
                let m = kk.vfs.mask(id) & (p.events as u32 | EPOLLERR as u32 | EPOLLHUP as u32);
                p.revents = m as i16;
            } else {
                p.revents = POLLNVAL;
            }
            if p.revents != 0 {
                cnt += 1;
            }
        }
        if cnt > 0 || ms == 0 || dl.is_some_and(|d| now() >= d) {
            return cnt;
        }
        // Only the first descriptor is watched while blocked.
        let id = kk.vfs.file_of((*fds).fd).unwrap();
        kk.block(cur(), Wait::File(id), dl, true);
    }
}

macro_rules! table {
    ($($n:ident),*) => {
        struct Table(&'static [(&'static str, F)]);
        unsafe impl Sync for Table {}
        impl std::ops::Deref for Table {
            type Target = [(&'static str, F)];
            fn deref(&self) -> &Self::Target { self.0 }
        }
        #[used]
        static TABLE: Table = Table(unsafe { &[$((stringify!($n), std::mem::transmute::<*const (), F>($n as *const ()))),*] });
    };
}
table!(
    clock_gettime, nanosleep, clock_nanosleep, sched_yield, syscall, getrandom, pthread_create, pthread_join, pthread_detach, epoll_create1,
    epoll_ctl, epoll_wait, epoll_pwait, epoll_pwait2, eventfd, timerfd_create, timerfd_settime, read, write, recv, send, recvfrom, sendto, readv,
    writev, recvmsg, sendmsg, socket, socketpair, pipe, pipe2, bind, listen, connect, accept4, accept, getsockname, getpeername, getsockopt,
    setsockopt, shutdown, ioctl, fcntl, fcntl64, dup, close, poll
);
pub fn linked() -> usize {
    TABLE.len()
}
