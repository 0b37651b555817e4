//! Scheduler, virtual clock, decisions.
use crate::raw;
use crate::rng::{mix, Rng};
use crate::shm::*;
use crate::vfs::Vfs;
use std::collections::BTreeMap;
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

// ---------------------------------------------------------------- fault kinds
pub mod f {
    pub const NAMES: &[&str] = &[
        "epoll_eintr", "epoll_err", "epoll_partial", "epoll_order", "epoll_spurious", "ctl_mod_err", "ctl_add_err",
        "ctl_del_err", "futex_spurious", "short_read", "short_write", "spurious_eagain", "io_eintr", "net_delay",
        "dgram_drop", "dgram_dup", "dgram_reorder", "conn_refused", "conn_timeout", "conn_reset", "accept_err",
        "fionbio_err", "socket_err", "timer_late", "stall", "clock_jump", "no_timerfd", "no_eventfd", "waker_panic",
        "future_panic", "cancel", "preempt", "block_choice", "futex_order", "no_pwait2", "io_err", "abort_close", "scarce_fds", "scarce_threads",
    ];
    pub const EPOLL_EINTR: usize = 0;
    pub const EPOLL_ERR: usize = 1;
    pub const EPOLL_PARTIAL: usize = 2;
    pub const EPOLL_ORDER: usize = 3;
    pub const EPOLL_SPUR: usize = 4;
    pub const CTL_MOD: usize = 5;
    pub const CTL_ADD: usize = 6;
    pub const CTL_DEL: usize = 7;
    pub const FUTEX_SPUR: usize = 8;
    pub const SHORT_R: usize = 9;
    pub const SHORT_W: usize = 10;
    pub const EAGAIN: usize = 11;
    pub const IO_EINTR: usize = 12;
    pub const NET_DELAY: usize = 13;
    pub const DG_DROP: usize = 14;
    pub const DG_DUP: usize = 15;
    pub const DG_REORD: usize = 16;
    pub const CONN_REFUSED: usize = 17;
    pub const CONN_TIMEOUT: usize = 18;
    pub const CONN_RESET: usize = 19;
    pub const ACCEPT_ERR: usize = 20;
    pub const FIONBIO: usize = 21;
    pub const SOCKET: usize = 22;
    pub const TIMER_LATE: usize = 23;
    pub const STALL: usize = 24;
    pub const JUMP: usize = 25;
    pub const NO_TIMERFD: usize = 26;
    pub const NO_EVENTFD: usize = 27;
    pub const WAKER_PANIC: usize = 28;
    pub const FUTURE_PANIC: usize = 29;
    pub const CANCEL: usize = 30;
    pub const PREEMPT: usize = 31;
    pub const BLKCHOICE: usize = 32;
    pub const FUTEX_ORDER: usize = 33;
    pub const NO_PWAIT2: usize = 34;
    pub const IO_ERR: usize = 35;
    pub const ABORT_CLOSE: usize = 36;
    pub const SCARCE_FD: usize = 37;
    pub const SCARCE_TH: usize = 38;
}

// ---------------------------------------------------------------- configuration
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Cfg {
    pub kv: BTreeMap<String, u64>,
}
impl Cfg {
    pub fn get(&self, k: &str, d: u64) -> u64 {
        *self.kv.get(k).unwrap_or(&d)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.kv.insert(k.to_string(), v);
    }
    pub fn fault(&mut self, kind: usize, ppm: u64) {
        self.set(&format!("f.{}", f::NAMES[kind]), ppm);
    }
}

// ---------------------------------------------------------------- threads
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Blocked,
    Done,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Wait {
    None,
    Futex(usize),
    Epoll(usize),
    File(usize),
    Sleep,
    Join(u32),
    Cond,
}
#[repr(C)]
pub struct Th {
    pub hot: Hot,
    pub word: AtomicU32,
    pub slice_end: u64,
    /// No preemption at hot sites before this step.
    pub grace: u64,
    /// Where this thread is demoted next (focused priority scheduling).
    pub focus_at: u64,
    pub blk: u64,
    pub st: St,
    pub wait: Wait,
    pub timeout_key: Option<(u64, u64)>,
    pub timed_out: bool,
    /// Refused changes of a registration by this thread.
    pub modf: u64,
    pub prio: u64,
    pub pthread: libc::pthread_t,
    pub name: String,
    pub stops: Vec<Dec>,
    pub stop_i: usize,
    pub blks: Vec<Dec>,
    pub blk_i: usize,
    pub joined: bool,
    pub last_clock: u64,
    pub clock_reads: u64,
    /// If not 0, the next clock read returns this, unless it is later already.
    pub exact: u64,
    pub first_clock: Option<u64>,
    /// I/O calls on user files made by this thread, oldest first.
    pub io: Vec<IoRec>,
}
#[derive(Clone, Debug)]
pub struct IoRec {
    /// r read, p peek, w write, a accept, c connect, s socket
    pub kind: u8,
    pub file: usize,
    /// Result as the kernel reports it: negative error numbers.
    pub ret: isize,
    pub data: Vec<u8>,
    pub addr: crate::vfs::Addr,
    pub new: usize,
}

/// A simulated event is being carried out.
pub static mut IN_EV: bool = false;
use simp::{Hot, BUDGET, COV, CUR, HOT, NEXT_EV, NOW, POINTS, SYSG, TICK};
static mut KP: *mut Kern = null_mut();

const FAIR: u64 = 200_000;

pub type Ev = Box<dyn FnOnce()>;

pub struct Kern {
    pub cfg: Cfg,
    pub rng: Rng,
    pub replay: bool,
    pub ths: Vec<Box<Th>>,
    pub cur: u32,
    pub evs: BTreeMap<(u64, u64), Ev>,
    pub seq: u64,
    pub vfs: Vfs,
    pub shm: &'static mut Shm,
    pub faults_on: bool,
    /// Threads cannot be created.
    pub no_threads: bool,
    /// Panics are expected: resources are scarce.
    pub forgive: bool,
    pub fault_ppm: [u64; NFAULT],
    pub fault_ord: [u64; NFAULT],
    pub fault_rep: Vec<BTreeMap<u64, u64>>,
    pub preempt_on: bool,
    pub policy: u64,
    pub gap: u64,
    pub hot_ppm: u64,
    pub focus_ppm: u64,
    pub stall_ppm: u64,
    pub stall_max: u64,
    pub stall_cap: u64,
    pub stall_total: u64,
    pub jump_ppm: u64,
    pub jump_max: u64,
    pub blk_ppm: u64,
    pub sys_ns: u64,
    pub switches: u64,
    pub nev: u64,
    pub nsys: u64,
    /// Those that reach the operating system.
    pub nos: u64,
    pub hash: u64,
    pub ophash: u64,
    pub changes: Vec<u64>,
    pub trace: bool,
    pub in_ev: bool,
    pub lone: u32,
    pub fairs: u32,
    /// Further properties concerned, set by the condition of an expectation that fails.
    pub extra: String,
    pub wakers: Vec<crate::api::WInfo>,
    pub obligations: u64,
    pub randctr: u64,
    pub epoll_returns: u64,
    pub on_changed: Option<fn(usize)>,
    /// Outcome of connecting, by client file: error number (0: established), time, server file.
    /// Called whenever a thread waits for events.
    pub epwait_hook: Option<fn(usize)>,
    pub conn_log: BTreeMap<usize, (i32, u64, usize)>,
    /// Client and listener of every server-side file.
    pub srv_log: BTreeMap<usize, (usize, usize)>,
}

#[inline(always)]
pub fn k() -> &'static mut Kern {
    unsafe { &mut *KP }
}
#[inline(always)]
pub fn in_sim() -> bool {
    CUR.with(|c| !c.get().is_null())
}
#[inline(always)]
pub fn cur() -> &'static mut Th {
    unsafe { &mut *(CUR.with(|c| c.get()) as *mut Th) }
}
pub fn now() -> u64 {
    unsafe { NOW }
}

/// A scheduling point at an intercepted call.
pub fn sys_point(call: usize) {
    let kk = k();
    kk.nsys += 1;
    if call < crate::shim::C_USER {
        kk.nos += 1;
    }
    kk.ophash = mix(kk.ophash, (cur().hot.id as u64) << 8 | call as u64);
    if kk.focus_ppm > 0 && kk.preempt_on {
        focus(kk, call);
    }
    unsafe { simp::sys_point(call, kk.sys_ns) };
}
/// Pick a place soon after this call where the thread loses its priority until all others are blocked.
fn focus(kk: &mut Kern, call: usize) {
    let th = cur();
    let often = call == crate::shim::C_WAKE || call == crate::shim::C_USER;
    if th.focus_at == u64::MAX && th.hot.steps >= th.grace && kk.rng.ppm(if often { kk.focus_ppm * 5 } else { kk.focus_ppm }) {
        let n = kk.rng.pick(&[1, 1, 4, 12, 12, 30, 30, 80, 200, 1000]);
        th.focus_at = th.hot.steps + 1 + kk.rng.below(n);
        th.hot.next_stop = th.hot.next_stop.min(th.focus_at);
    }
}

#[cold]
unsafe fn slow(h: *mut Hot, id: usize) {
    let th: &mut Th = &mut *(h as *mut Th);
    let kk = k();
    unsafe {
        if POINTS >= BUDGET {
            kk.fail("*", "LIVELOCK", &format!("step budget of {} points used up at virtual time {} ns", BUDGET, NOW));
        }
        if NOW >= NEXT_EV {
            kk.fire_due();
        }
    }
    if !kk.preempt_on {
        if th.hot.steps >= th.hot.next_stop {
            th.hot.next_stop = u64::MAX;
        }
        if th.hot.steps >= th.slice_end {
            fair(kk, th);
        }
        set_stop(kk, th, false);
        return;
    }
    if kk.replay {
        while th.stop_i < th.stops.len() && th.stops[th.stop_i].at <= th.hot.steps {
            let d = th.stops[th.stop_i];
            th.stop_i += 1;
            if d.at < th.hot.steps {
                continue;
            }
            apply(kk, th, d);
        }
    } else if unsafe { HOT[id] } != 0 {
        if th.hot.steps >= th.grace && kk.rng.ppm(kk.hot_ppm) {
            decide(kk, th);
        }
    } else if th.hot.steps >= th.hot.next_stop && th.hot.steps < th.slice_end && th.hot.steps >= th.grace {
        decide(kk, th);
    }
    if th.hot.steps >= th.slice_end {
        fair(kk, th);
    }
    set_stop(kk, th, false);
}

fn fair(kk: &mut Kern, th: &mut Th) {
    th.slice_end = th.hot.steps + FAIR;
    if let Some(t) = kk.next_runnable(th.hot.id) {
        // A whole slice went by while others were runnable: for those it was a stall, and when it keeps
        // happening the others get longer and longer runs, so that no spinning thread starves them.
        kk.lone = 0;
        kk.fairs = (kk.fairs + 1).min(12);
        kk.stall_total += FAIR * unsafe { TICK };
        for tt in kk.ths.iter_mut().filter(|x| x.hot.id != th.hot.id) {
            tt.grace = tt.hot.steps + (1000 << kk.fairs);
        }
        kk.switch(th, t);
        return;
    }
    // The thread runs alone, perhaps spinning until a stalled one gets on: let time pass.
    kk.lone += 1;
    if kk.lone > 2 && !kk.in_ev && unsafe { NEXT_EV } != u64::MAX {
        let t = unsafe { NEXT_EV };
        if t > now() {
            kk.stall_total += t - now();
            unsafe { NOW = t };
        }
        kk.fire_due();
        if let Some(t) = kk.next_runnable(th.hot.id) {
            kk.switch(th, t);
        }
    }
}

/// Compute the next step at which this thread must enter `slow`.
fn set_stop(kk: &mut Kern, th: &mut Th, fresh: bool) {
    let n = if !kk.preempt_on {
        u64::MAX
    } else if kk.replay {
        while th.stop_i < th.stops.len() && th.stops[th.stop_i].at <= th.hot.steps {
            th.stop_i += 1;
        }
        th.stops.get(th.stop_i).map_or(u64::MAX, |d| d.at)
    } else {
        match kk.policy {
            1 | 5 => {
                if fresh || th.hot.next_stop <= th.hot.steps || th.hot.next_stop == u64::MAX {
                    th.hot.steps + kk.rng.gap(kk.gap)
                } else {
                    th.hot.next_stop
                }
            }
            3 => {
                let p = unsafe { POINTS };
                let next = kk.changes.iter().copied().find(|c| *c > p).unwrap_or(u64::MAX);
                let n = if next == u64::MAX { u64::MAX } else { th.hot.steps + (next - p) };
                n.min(th.focus_at)
            }
            _ => u64::MAX,
        }
    };
    th.hot.next_stop = n.min(th.slice_end);
}

/// Search mode: choose what happens at this point.
fn decide(kk: &mut Kern, th: &mut Th) {
    if kk.stall_ppm > 0 && kk.rng.ppm(kk.stall_ppm) && kk.stall_total < kk.stall_cap {
        let mag = kk.rng.below(5);
        let max = [1_000, 20_000, 400_000, 10_000_000, kk.stall_max][mag as usize].min(kk.stall_max);
        let d = kk.rng.range(1, max.max(1));
        apply(kk, th, Dec { kind: D_STALL, tid: th.hot.id, at: th.hot.steps, val: d });
        return;
    }
    if kk.jump_ppm > 0 && kk.rng.ppm(kk.jump_ppm) && kk.stall_total < kk.stall_cap {
        let d = kk.rng.range(1, kk.jump_max.max(1));
        apply(kk, th, Dec { kind: D_JUMP, tid: th.hot.id, at: th.hot.steps, val: d });
        return;
    }
    let target = if kk.policy == 3 {
        let focused = th.hot.steps >= th.focus_at;
        if focused {
            th.focus_at = u64::MAX;
        }
        if th.hot.steps < th.grace {
            return;
        }
        if focused || kk.changes.contains(&unsafe { POINTS }) {
            // A change point: demote the current thread.
            let low = kk.ths.iter().map(|t| t.prio).min().unwrap_or(1000);
            th.prio = low.saturating_sub(1);
        }
        match kk.best_prio() {
            Some(t) if t != th.hot.id => t,
            _ => return,
        }
    } else {
        let mut cand = [0u32; 64];
        let mut n = 0;
        for t in &kk.ths {
            if t.st == St::Run && t.hot.id != th.hot.id && n < 64 {
                cand[n] = t.hot.id;
                n += 1;
            }
        }
        if n == 0 {
            return;
        }
        cand[kk.rng.below(n as u64) as usize]
    };
    apply(kk, th, Dec { kind: D_PRE, tid: th.hot.id, at: th.hot.steps, val: target as u64 });
}

fn apply(kk: &mut Kern, th: &mut Th, d: Dec) {
    match d.kind {
        D_PRE => {
            let t = d.val as usize;
            if t < kk.ths.len() && kk.ths[t].st == St::Run && t as u32 != th.hot.id {
                kk.record(d);
                kk.count(f::PREEMPT);
                kk.switch(th, t as u32);
            }
        }
        D_STALL => {
            kk.record(d);
            kk.count(f::STALL);
            kk.stall_total += d.val;
            let until = now() + d.val;
            kk.log(|| format!("stall t{} for {} ns", th.hot.id, d.val));
            kk.block(th, Wait::Sleep, Some(until), false);
        }
        D_JUMP => {
            kk.record(d);
            kk.count(f::JUMP);
            kk.stall_total += d.val;
            unsafe { NOW += d.val };
            kk.log(|| format!("clock jumps by {} ns", d.val));
            if unsafe { NOW >= NEXT_EV } {
                kk.fire_due();
            }
        }
        _ => {}
    }
}

impl Kern {
    pub fn log(&mut self, m: impl FnOnce() -> String) {
        if self.trace {
            let c = self.cur;
            let s = format!("{:>12} t{} {}\n", now(), c, m());
            let n = self.shm.nlog as usize;
            if n + s.len() < LOGMAX {
                self.shm.log[n..n + s.len()].copy_from_slice(s.as_bytes());
                self.shm.nlog += s.len() as u64;
            }
        }
    }
    pub fn record(&mut self, d: Dec) {
        let n = self.shm.ndec as usize;
        if n < MAXDEC {
            self.shm.dec[n] = d;
            self.shm.ndec += 1;
        }
        self.hash = mix(self.hash, d.kind as u64 | (d.tid as u64) << 8 | d.at << 16);
        self.hash = mix(self.hash, d.val);
    }
    pub fn count(&mut self, kind: usize) {
        self.shm.faults[kind] += 1;
    }
    pub fn flush(&mut self) {
        let s = &mut *self.shm;
        s.points = unsafe { POINTS };
        s.switches = self.switches;
        s.events = self.nev;
        s.syscalls = self.nsys;
        s.now = now();
        s.hash = self.hash;
        s.ophash = self.ophash;
        s.threads = self.ths.len() as u64;
        s.obligations = self.obligations;
        unsafe {
            for i in 0..NCOV {
                if COV[i] != 0 {
                    s.cov[i] = 1;
                }
            }
        }
    }
    pub fn fail(&mut self, props: &str, class: &str, msg: &str) -> ! {
        let props = &*format!("{}{}", props, self.extra);
        let m = format!("{} [virtual time {} ns, thread t{} step {}]", msg, now(), self.cur, self.ths[self.cur as usize].hot.steps);
        self.log(|| format!("VIOLATION {} {} {}", props, class, m));
        self.shm.set_violation(props, class, &m);
        self.flush();
        self.shm.status = 2;
        unsafe { raw::exit(10) }
    }
    pub fn finish(&mut self) -> ! {
        self.flush();
        self.shm.status = 1;
        unsafe { raw::exit(0) }
    }

    // ------------------------------------------------------------ events
    pub fn at(&mut self, t: u64, e: impl FnOnce() + 'static) -> (u64, u64) {
        self.seq += 1;
        let t = t.max(now());
        let key = (t, self.seq);
        let was = unsafe { IN_EV };
        unsafe { IN_EV = true };
        self.evs.insert(key, Box::new(e));
        unsafe { IN_EV = was };
        self.upd_next();
        key
    }
    pub fn cancel(&mut self, key: (u64, u64)) {
        self.remove_ev(key);
        self.upd_next();
    }
    fn remove_ev(&mut self, key: (u64, u64)) {
        let was = unsafe { IN_EV };
        unsafe { IN_EV = true };
        self.evs.remove(&key);
        unsafe { IN_EV = was };
    }
    fn upd_next(&mut self) {
        unsafe { NEXT_EV = self.evs.keys().next().map_or(u64::MAX, |x| x.0) };
    }
    pub fn fire_due(&mut self) {
        if self.in_ev {
            return;
        }
        self.in_ev = true;
        unsafe { IN_EV = true };
        loop {
            let Some((key, _)) = self.evs.first_key_value() else { break };
            if key.0 > now() {
                break;
            }
            let (key, e) = self.evs.pop_first().unwrap();
            self.upd_next();
            self.nev += 1;
            self.hash = mix(self.hash, key.0);
            e();
        }
        self.upd_next();
        self.in_ev = false;
        unsafe { IN_EV = false };
    }

    // ------------------------------------------------------------ choosing threads
    pub fn next_runnable(&self, after: u32) -> Option<u32> {
        let n = self.ths.len() as u32;
        (1..=n).map(|i| (after + i) % n).find(|t| self.ths[*t as usize].st == St::Run && *t != after)
    }
    fn best_prio(&self) -> Option<u32> {
        self.ths.iter().filter(|t| t.st == St::Run).max_by_key(|t| (t.prio, u32::MAX - t.hot.id)).map(|t| t.hot.id)
    }
    fn choose_blocked(&mut self, th: &mut Th) -> u32 {
        // th itself may have become runnable meanwhile.
        let n = self.ths.len() as u32;
        let def = (1..=n).map(|i| (th.hot.id + i) % n).find(|t| self.ths[*t as usize].st == St::Run).unwrap();
        let mut pick = def;
        if self.replay {
            while th.blk_i < th.blks.len() && th.blks[th.blk_i].at < th.blk {
                th.blk_i += 1;
            }
            if let Some(d) = th.blks.get(th.blk_i) {
                if d.at == th.blk && (d.val as usize) < self.ths.len() && self.ths[d.val as usize].st == St::Run {
                    pick = d.val as u32;
                }
            }
        } else if self.preempt_on {
            if self.policy == 3 {
                pick = self.best_prio().unwrap();
            } else if self.blk_ppm > 0 && self.rng.ppm(self.blk_ppm) {
                let mut cand = [0u32; 64];
                let mut m = 0;
                for t in &self.ths {
                    if t.st == St::Run && m < 64 {
                        cand[m] = t.hot.id;
                        m += 1;
                    }
                }
                pick = cand[self.rng.below(m as u64) as usize];
            }
        }
        if pick != def {
            self.record(Dec { kind: D_BLK, tid: th.hot.id, at: th.blk, val: pick as u64 });
            self.count(f::BLKCHOICE);
        }
        pick
    }

    // ------------------------------------------------------------ blocking and switching
    pub fn make_runnable(&mut self, tid: u32, timed_out: bool) {
        let th: &mut Th = unsafe { &mut *(&mut *self.ths[tid as usize] as *mut Th) };
        if th.st != St::Blocked {
            return;
        }
        th.st = St::Run;
        th.timed_out = timed_out;
        th.wait = Wait::None;
        if let Some(key) = th.timeout_key.take() {
            if !timed_out {
                self.remove_ev(key);
                self.upd_next();
            }
        }
        if self.policy == 3 && !self.replay && self.preempt_on {
            if self.focus_ppm > 0 {
                th.prio = 1_000_000 + self.rng.below(1_000_000);
            }
            let c: &mut Th = unsafe { &mut *(&mut *self.ths[self.cur as usize] as *mut Th) };
            if c.st == St::Run && th.prio > c.prio && c.hot.id != th.hot.id {
                // Run the higher priority thread at the next point.
                c.hot.next_stop = c.hot.steps + 1;
            }
        }
    }

    /// Block the current thread; returns true if the timeout expired.
    pub fn block(&mut self, th: &mut Th, wait: Wait, deadline: Option<u64>, faulty_late: bool) -> bool {
        th.blk += 1;
        th.timed_out = false;
        if let Some(d) = deadline {
            let mut d = d;
            if faulty_late {
                d = d.saturating_add(self.fault_range(f::TIMER_LATE, 2_000_000));
            }
            let id = th.hot.id;
            if d < u64::MAX {
                th.timeout_key = Some(self.at(d, move || k().make_runnable(id, true)));
            }
        }
        th.st = St::Blocked;
        th.wait = wait;
        let me = th.hot.id;
        loop {
            if self.ths.iter().any(|t| t.st == St::Run) {
                break;
            }
            match self.evs.keys().next().copied() {
                None => {
                    let desc = self.describe();
                    self.fail("*", "HANG", &format!("no thread can run and nothing is scheduled: {}", desc));
                }
                Some((t, _)) => {
                    if t > now() {
                        unsafe { NOW = t };
                    }
                    if self.in_ev {
                        self.fail("*", "HARNESS", "blocked inside an event");
                    }
                    self.fire_due();
                    if now() > 9_000_000_000_000_000_000 {
                        let desc = self.describe();
                        self.fail("*", "HANG", &format!("virtual time ran away: {}", desc));
                    }
                }
            }
        }
        let t = self.choose_blocked(th);
        if t != me {
            self.switch(th, t);
        } else {
            th.slice_end = th.hot.steps + FAIR;
            set_stop(self, th, true);
        }
        th.timed_out
    }
    pub fn describe(&self) -> String {
        self.ths.iter().map(|t| format!("t{}({}) {:?}/{:?}", t.hot.id, t.name, t.st, t.wait)).collect::<Vec<_>>().join("; ")
    }

    /// Hand the baton to `target` and wait until it comes back.
    pub fn switch(&mut self, th: &mut Th, target: u32) {
        self.hash = mix(self.hash, (th.hot.id as u64) << 40 | (target as u64) << 32 | (th.hot.steps & 0xffff_ffff));
        self.switches += 1;
        self.lone = 0;
        self.cur = target;
        if self.trace {
            let s = th.hot.steps;
            let from = th.hot.id;
            self.log(|| format!("<- from t{} at step {}", from, s));
        }
        let tt: &mut Th = unsafe { &mut *(&mut *self.ths[target as usize] as *mut Th) };
        tt.slice_end = tt.hot.steps + FAIR;
        set_stop(self, tt, true);
        let done = th.st == St::Done;
        let my = &th.word as *const AtomicU32;
        tt.word.store(1, SeqCst);
        unsafe { raw::futex_wake(&tt.word as *const _ as *const u32) };
        if done {
            return;
        }
        wait_baton(my);
    }

    // ------------------------------------------------------------ faults
    /// Value of a fault decision: 0 = no fault.
    pub fn fault(&mut self, kind: usize, vals: u64) -> u64 {
        self.fault_ord[kind] += 1;
        let ord = self.fault_ord[kind];
        let v = if self.replay {
            *self.fault_rep[kind].get(&ord).unwrap_or(&0)
        } else if self.faults_on && self.rng.ppm(self.fault_ppm[kind]) {
            1 + self.rng.below(vals)
        } else {
            0
        };
        if v != 0 {
            self.record(Dec { kind: D_FAULT, tid: kind as u32, at: ord, val: v });
            self.count(kind);
            self.log(|| format!("fault {} = {}", f::NAMES[kind], v));
        }
        v
    }
    pub fn fault_range(&mut self, kind: usize, max: u64) -> u64 {
        // Log-uniform magnitudes.
        self.fault_ord[kind] += 1;
        let ord = self.fault_ord[kind];
        let v = if self.replay {
            *self.fault_rep[kind].get(&ord).unwrap_or(&0)
        } else if self.faults_on && self.rng.ppm(self.fault_ppm[kind]) {
            let bits = 64 - max.leading_zeros() as u64;
            let b = self.rng.range(4.min(bits), bits);
            1 + self.rng.below(max.min(1 << b))
        } else {
            0
        };
        if v != 0 {
            self.record(Dec { kind: D_FAULT, tid: kind as u32, at: ord, val: v });
            self.count(kind);
        }
        v
    }

    // ------------------------------------------------------------ futex
    pub fn futex_wait(&mut self, addr: usize, val: u32, deadline: Option<u64>) -> isize {
        let curv = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
        if curv != val {
            return -(libc::EAGAIN as isize);
        }
        if self.fault(f::FUTEX_SPUR, 1) != 0 {
            return 0;
        }
        let th = cur();
        if self.block(th, Wait::Futex(addr), deadline, true) {
            -(libc::ETIMEDOUT as isize)
        } else {
            0
        }
    }
    pub fn futex_wake(&mut self, addr: usize, n: u32) -> isize {
        let mut woken = 0;
        while woken < n {
            let mut cand = [0u32; 64];
            let mut m = 0;
            for t in &self.ths {
                if t.st == St::Blocked && t.wait == Wait::Futex(addr) && m < 64 {
                    cand[m] = t.hot.id;
                    m += 1;
                }
            }
            if m == 0 {
                break;
            }
            let v = if m > 1 { self.fault(f::FUTEX_ORDER, m as u64) } else { 0 };
            let t = cand[(v as usize) % m];
            self.make_runnable(t, false);
            woken += 1;
        }
        woken as isize
    }
    /// Wake every thread blocked on a condition of the workload.
    pub fn cond_signal(&mut self) {
        for i in 0..self.ths.len() {
            if self.ths[i].st == St::Blocked && self.ths[i].wait == Wait::Cond {
                self.make_runnable(i as u32, false);
            }
        }
    }
    pub fn wake_file_waiters(&mut self, file: usize) {
        for i in 0..self.ths.len() {
            if self.ths[i].st == St::Blocked && self.ths[i].wait == Wait::File(file) {
                self.make_runnable(i as u32, false);
            }
        }
    }

    // ------------------------------------------------------------ threads
    pub fn new_thread(&mut self, name: &str) -> &'static mut Th {
        let id = self.ths.len() as u32;
        let prio = 1_000_000 + self.rng_sched().below(1_000_000);
        let mut th = Box::new(Th {
            hot: Hot { id, steps: 0, next_stop: u64::MAX },
            word: AtomicU32::new(0),
            slice_end: FAIR,
            grace: 0,
            blk: 0,
            st: St::Run,
            wait: Wait::None,
            timeout_key: None,
            timed_out: false,
            modf: 0,
            prio,
            focus_at: u64::MAX,
            pthread: 0,
            name: name.to_string(),
            stops: vec![],
            stop_i: 0,
            blks: vec![],
            blk_i: 0,
            joined: false,
            last_clock: 0,
            clock_reads: 0,
            exact: 0,
            first_clock: None,
            io: vec![],
        });
        if self.replay {
            if let Some(r) = unsafe { (*REPLAY.0.get()).as_ref() } {
                th.stops = r.iter().filter(|d| d.tid == id && matches!(d.kind, D_PRE | D_STALL | D_JUMP)).copied().collect();
                th.blks = r.iter().filter(|d| d.tid == id && d.kind == D_BLK).copied().collect();
                th.stops.sort_by_key(|d| d.at);
                th.blks.sort_by_key(|d| d.at);
            }
        }
        let p: *mut Th = &mut *th;
        self.ths.push(th);
        unsafe { &mut *p }
    }
    fn rng_sched(&mut self) -> &mut Rng {
        &mut self.rng
    }
    pub fn thread_end(&mut self, th: &mut Th) {
        th.st = St::Done;
        let id = th.hot.id;
        self.log(|| format!("thread t{} ends", id));
        for i in 0..self.ths.len() {
            if self.ths[i].st == St::Blocked && self.ths[i].wait == Wait::Join(id) {
                self.make_runnable(i as u32, false);
            }
        }
        loop {
            if self.ths.iter().any(|t| t.st == St::Run) {
                break;
            }
            match self.evs.keys().next().copied() {
                None => {
                    let desc = self.describe();
                    self.fail("*", "HANG", &format!("no thread can run and nothing is scheduled: {}", desc));
                }
                Some((t, _)) => {
                    if t > now() {
                        unsafe { NOW = t };
                    }
                    self.fire_due();
                }
            }
        }
        th.blk += 1;
        let t = self.choose_blocked(th);
        CUR.with(|c| c.set(null_mut()));
        self.switch(th, t);
    }
}

pub fn wait_baton(w: *const AtomicU32) {
    let w = unsafe { &*w };
    while w.load(SeqCst) == 0 {
        unsafe { raw::futex_wait(w as *const _ as *const u32, 0) };
    }
    w.store(0, SeqCst);
}

struct SyncCell(std::cell::UnsafeCell<Option<Vec<Dec>>>);
unsafe impl Sync for SyncCell {}
static REPLAY: SyncCell = SyncCell(std::cell::UnsafeCell::new(None));

/// Start simulating on the calling thread (the only one of the process), which becomes t0.
pub fn start(cfg: &Cfg, shm: *mut Shm, replay: Option<Vec<Dec>>, trace: bool) {
    crate::shim::init();
    let seed = cfg.get("seed", 0);
    let shm: &'static mut Shm = unsafe { &mut *shm };
    shm.reset();
    let mut fault_rep = vec![BTreeMap::new(); NFAULT];
    if let Some(r) = &replay {
        for d in r.iter().filter(|d| d.kind == D_FAULT) {
            if (d.tid as usize) < NFAULT {
                fault_rep[d.tid as usize].insert(d.at, d.val);
            }
        }
    }
    let mut fault_ppm = [0; NFAULT];
    for (i, n) in f::NAMES.iter().enumerate() {
        fault_ppm[i] = cfg.get(&format!("f.{}", n), 0);
    }
    let is_replay = replay.is_some();
    unsafe { *REPLAY.0.get() = replay };
    let mut kern = Box::new(Kern {
        rng: Rng::new(seed, 77),
        replay: is_replay,
        ths: vec![],
        cur: 0,
        evs: BTreeMap::new(),
        seq: 0,
        vfs: Vfs::new(cfg),
        shm,
        faults_on: true,
        no_threads: false,
        forgive: false,
        fault_ppm,
        fault_ord: [0; NFAULT],
        fault_rep,
        preempt_on: true,
        policy: cfg.get("policy", 0),
        gap: cfg.get("gap", 200),
        hot_ppm: cfg.get("hot_ppm", 200_000),
        focus_ppm: if is_replay { 0 } else { cfg.get("focus_ppm", 0) },
        stall_ppm: cfg.get("stall_ppm", 0),
        stall_max: cfg.get("stall_max", 1_000_000),
        stall_cap: cfg.get("stall_cap", 2_000_000_000),
        stall_total: 0,
        jump_ppm: cfg.get("jump_ppm", 0),
        jump_max: cfg.get("jump_max", 1_000_000),
        blk_ppm: cfg.get("blk_ppm", 0),
        sys_ns: cfg.get("sys_ns", 150),
        switches: 0,
        nev: 0,
        nsys: 0,
        nos: 0,
        hash: seed,
        ophash: 0,
        changes: vec![],
        trace,
        in_ev: false,
        lone: 0,
        fairs: 0,
        extra: String::new(),
        wakers: vec![],
        obligations: 0,
        randctr: seed,
        epoll_returns: 0,
        on_changed: None,
            epwait_hook: None,
            conn_log: BTreeMap::new(),
            srv_log: BTreeMap::new(),
        cfg: cfg.clone(),
    });
    unsafe {
        NOW = 1_000_000_000_000 + cfg.get("t0", 0);
        NEXT_EV = u64::MAX;
        POINTS = 0;
        BUDGET = cfg.get("budget", 40_000_000);
        TICK = cfg.get("tick", 2);
        for i in 0..NCOV {
            HOT[i] = 0;
            COV[i] = 0;
        }
    }
    if !is_replay {
        match kern.policy {
            2 => {
                let n = cfg.get("hot_n", 30).max(1);
                let salt = kern.rng.u64();
                for i in 0..SYSG {
                    if mix(salt, i as u64) % n == 0 {
                        unsafe { HOT[i] = 1 };
                    }
                }
            }
            4 => {
                for i in SYSG..NCOV {
                    unsafe { HOT[i] = 1 };
                }
            }
            5 => {
                // Random walk plus intercepted calls.
                for i in SYSG..NCOV {
                    unsafe { HOT[i] = 1 };
                }
            }
            3 => {
                let d = cfg.get("pct_d", 3);
                let len = cfg.get("pct_len", 20_000);
                let mut ch: Vec<u64> = (0..d).map(|_| kern.rng.range(1, len)).collect();
                ch.sort();
                kern.changes = ch;
            }
            _ => {}
        }
    }
    let p = Box::into_raw(kern);
    unsafe { KP = p };
    let kk = k();
    let th = kk.new_thread("main");
    CUR.with(|c| c.set(th as *mut Th as *mut Hot));
    unsafe { simp::SLOW = Some(slow) };
    set_stop(kk, th, true);
}
