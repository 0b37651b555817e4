//! What workloads use: wakers observed by the simulator, waiting, obligations, events.
use crate::kern::*;
use crate::shim::{C_USER, C_WAKE, C_WCLONE, C_WDROP};
use std::task::{RawWaker, RawWakerVTable, Waker};

#[derive(Default)]
pub struct WInfo {
    pub wakes: u64,
    pub refs: i64,
    pub last_wake: u64,
    pub clones: u64,
    pub on_wake: Option<std::rc::Rc<dyn Fn()>>,
    pub on_drop: Option<std::rc::Rc<dyn Fn()>>,
    pub label: String,
}

unsafe fn w_clone(p: *const ()) -> RawWaker {
    let i = idx(p);
    if in_sim() {
        sys_point(C_WCLONE);
    }
    let w = &mut k().wakers[i];
    w.refs += 1;
    w.clones += 1;
    RawWaker::new(p, &VT)
}
fn idx(p: *const ()) -> usize {
    p as usize / 16 - 1
}
unsafe fn run_cb(i: usize, drop_cb: bool) {
    let kk = k();
    let cb = {
        let w = &mut kk.wakers[i];
        if drop_cb { w.on_drop.clone() } else { w.on_wake.clone() }
    };
    if let Some(f) = cb {
        f();
    }
}
unsafe fn do_wake(i: usize) {
    if in_sim() {
        sys_point(C_WAKE);
    }
    let kk = k();
    let w = &mut kk.wakers[i];
    w.wakes += 1;
    w.last_wake = now();
    let n = w.wakes;
    kk.log(|| format!("waker w{} woken ({})", i, n));
    kk.cond_signal();
}
struct Unref(usize);
impl Drop for Unref {
    fn drop(&mut self) {
        let w = &mut k().wakers[self.0];
        w.refs -= 1;
        if w.refs < 0 {
            let l = w.label.clone();
            k().fail("*", "WAKER_REFS", &format!("waker w{} ({}) dropped more often than cloned", self.0, l));
        }
        if in_sim() {
            k().cond_signal();
            if k().wakers[self.0].refs == 0 {
                unsafe { run_cb(self.0, true) };
            }
        }
    }
}
unsafe fn w_wake(p: *const ()) {
    let i = idx(p);
    do_wake(i);
    let _g = Unref(i);
    if in_sim() {
        run_cb(i, false);
    }
}
unsafe fn w_wake_ref(p: *const ()) {
    let i = idx(p);
    do_wake(i);
    if in_sim() {
        run_cb(i, false);
    }
}
unsafe fn w_drop(p: *const ()) {
    let i = idx(p);
    if in_sim() {
        sys_point(C_WDROP);
    }
    drop(Unref(i));
}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_ref, w_drop);

/// A new waker observed by the simulator; `id` names it.
pub fn new_waker(label: &str) -> (usize, Waker) {
    let kk = k();
    kk.wakers.push(WInfo { refs: 1, label: label.to_string(), ..Default::default() });
    let id = kk.wakers.len() - 1;
    (id, unsafe { Waker::from_raw(RawWaker::new(((id + 1) * 16) as *const (), &VT)) })
}
pub fn wakes(id: usize) -> u64 {
    k().wakers[id].wakes
}
pub fn refs(id: usize) -> i64 {
    k().wakers[id].refs
}
pub fn last_wake(id: usize) -> u64 {
    k().wakers[id].last_wake
}
pub fn on_wake(id: usize, f: impl Fn() + 'static) {
    k().wakers[id].on_wake = Some(std::rc::Rc::new(f));
}
pub fn on_drop(id: usize, f: impl Fn() + 'static) {
    k().wakers[id].on_drop = Some(std::rc::Rc::new(f));
}

/// A scheduling point in user code.
pub fn user_point() {
    if in_sim() {
        sys_point(C_USER);
    }
}
pub fn sleep_until(t: u64) {
    if t > now() {
        k().block(cur(), Wait::Sleep, Some(t), false);
    }
}
pub fn sleep(d: u64) {
    sleep_until(now().saturating_add(d));
}
/// Block the thread until the condition holds; false if the deadline passed first.
pub fn wait_cond(deadline: Option<u64>, c: &mut dyn FnMut() -> bool) -> bool {
    loop {
        if c() {
            return true;
        }
        if deadline.is_some_and(|d| now() >= d) {
            return false;
        }
        k().block(cur(), Wait::Cond, deadline, false);
    }
}
pub fn signal() {
    k().cond_signal();
}
pub fn at(t: u64, e: impl FnOnce() + 'static) {
    k().at(t, e);
}
pub fn violate(props: &str, class: &str, msg: &str) -> ! {
    k().fail(props, class, msg)
}
pub fn log(m: impl FnOnce() -> String) {
    k().log(m)
}
pub fn probe(i: usize) {
    k().shm.probes[i] += 1;
}
pub fn obligation() {
    k().obligations += 1;
}
pub fn slack() -> u64 {
    k().stall_total
}
/// The condition must hold by `t`, extended by every stall and clock jump injected since `base`.
pub fn expect_by(t: u64, base: u64, props: &'static str, class: &'static str, done: impl Fn() -> Option<String> + 'static) {
    k().obligations += 1;
    expect_inner(t, base, props, class, Box::new(done));
}
fn expect_inner(t: u64, base: u64, props: &'static str, class: &'static str, done: Box<dyn Fn() -> Option<String>>) {
    k().at(
        t,
        move || {
            let kk = k();
            kk.extra.clear();
            let Some(m) = done() else { return };
            let extra = kk.stall_total - base;
            if extra > 0 {
                kk.extra.clear();
                expect_inner(t.max(now()) + extra, kk.stall_total, props, class, done);
                return;
            }
            kk.fail(props, class, &m);
        },
    );
}
/// No faults, stalls or preemption noise of the fault kind from here on (scheduling stays random).
pub fn faults_off() {
    let kk = k();
    kk.faults_on = false;
    kk.stall_ppm = 0;
    kk.jump_ppm = 0;
}
pub fn faults_on() -> bool {
    k().faults_on
}
pub fn finish() -> ! {
    k().finish()
}
pub fn set_thread_name(n: &str) {
    cur().name = n.to_string();
}
pub fn tid() -> u32 {
    cur().hot.id
}

pub fn probe_max(i: usize, v: u64) {
    let p = &mut k().shm.probes[i];
    *p = (*p).max(v);
}
/// The last value the calling thread read from the clock, and how many times it has read it.
pub fn last_clock() -> (u64, u64) {
    (cur().last_clock, cur().clock_reads)
}
/// The first clock value the calling thread read since the reset.
pub fn first_clock_reset() -> Option<u64> {
    cur().first_clock.take()
}
pub fn first_clock_restore(v: Option<u64>) {
    cur().first_clock = v;
}
pub fn first_clock() -> Option<u64> {
    cur().first_clock
}
/// Let the next clock read of the calling thread return `t`, unless it is past already.
pub fn exact_clock(t: u64) {
    cur().exact = t;
}
pub fn nsys() -> u64 {
    k().nos
}
