//! The main workload: timers, readiness waits on devices, block_on, other executors, gates and re-entrant wakers.
#![allow(clippy::too_many_arguments)]
use crate::prog::*;
use async_io::Timer;
use futures_lite::Stream;
use simg::{Dev, Fut, Ready as _, VDev};
use simk::api::*;
use simk::{f, k, now, vfs};
use std::collections::VecDeque;
use std::future::Future;
use std::os::fd::{AsRawFd, OwnedFd};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

pub const CODES: &[&str] = &[
    "sleep", "spin", "tnew", "tpoll", "texact", "tset", "tdrop", "twill", "tburst", "tclear", "wburst", "wclear", "pile", "rfd", "opens", "resident", "dnew", "ddrop", "dset", "dsetat", "dhup", "dunwrap", "ddup",
    "wait", "wpoll", "wcancel", "open", "openat", "block", "exec", "hup", "churn",
];

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
/// Arguments from here on refer to the schedule of a timer.
pub const SAME: u64 = 3 << 62;
/// Arguments from here on refer to points that timers of several threads share.
pub const GRID: u64 = SAME + 256;
pub const NT: usize = 16;
pub const ND: usize = 8;
pub const NW: usize = 32;
pub const NG: usize = 8;

#[derive(Clone)]
pub struct Sched {
    pub lo: i128,
    pub hi: i128,
    pub per: Option<u128>,
}
#[derive(Default)]
pub struct TSlot {
    pub t: Option<Timer>,
    pub gen: u64,
    pub busy: bool,
    pub sched: Option<Sched>,
    pub reset: bool,
    /// The waker of the last poll, if it returned Pending.
    pub att: Option<usize>,
    pub last: Option<usize>,
    pub live: Vec<usize>,
    pub items: u64,
}
pub struct DSlot {
    pub arc: Option<Arc<Dev>>,
    pub raw: Option<VDev>,
    pub file: usize,
    pub fd: i32,
    pub busy: bool,
}
/// Per open device file: state of the poll_readable / poll_writable episodes.
#[derive(Default, Clone)]
pub struct Ep {
    pub d0: [Option<u64>; 2],
    pub used: [bool; 2],
    /// Waits that were cancelled while pending.
    pub cancels: u64,
}
pub struct Wt {
    pub arc: Arc<Dev>,
    pub file: usize,
    pub dir: usize,
    pub kind: u64,
    pub fut: Option<Fut<std::io::Result<u64>>>,
    pub wid: Option<usize>,
    pub d0: Option<u64>,
    pub c0: u64,
    pub gen: u64,
    pub pending: bool,
    pub over: bool, // completed, but not dropped yet
}
pub struct Gate {
    pub open: u64,
    pub waiters: VecDeque<usize>,
}
#[derive(Clone, Copy, PartialEq)]
pub enum WK {
    Timer,
    Wait,
    Relay(usize),
    Plain,
}
pub struct WW {
    pub kind: WK,
    pub h: Option<Waker>,
    pub regs: Vec<(i128, Option<u64>)>, // deadline, cancelled at
    pub nreg: u64,
    pub reset: bool, // its timer was reset while it was registered
    pub panics: bool,
    pub act: Option<(u64, u64)>,
    pub drop_act: Option<(u64, u64)>,
    pub calls: Vec<usize>,
}
pub struct Call {
    pub tid: u32,
    pub wid: usize,
    pub inner: Option<std::rc::Rc<Waker>>,
    pub polls: u64,
    pub fwd: u64,
    pub allow: u64,
    pub done: bool,
    pub parent: Option<usize>,
    pub exec: bool,
    pub start: u64,
    pub in_poll: bool,
    pub woken_in: bool,
    /// Waits for events since the last wakeup or poll: (wakeups, polls, how many, since when).
    pub serving: (u64, u64, u64, u64),
}
#[derive(Default, Clone)]
pub struct ThSt {
    pub stack: Vec<usize>,
    pub flying: u64,
    pub depth: u32,
}
pub struct World {
    pub over: Option<&'static str>,
    /// What reactor_fd() returned: descriptor and file.
    pub rfd: Option<(i32, usize)>,
    pub keep_done: bool,
    pub bound: u64,
    pub base_i: Instant,
    pub base_n: u64,
    pub ts: Vec<TSlot>,
    pub ds: Vec<DSlot>,
    pub eps: Vec<Box<Ep>>,
    pub ws: Vec<Option<Wt>>,
    pub wbusy: Vec<bool>,
    pub gates: Vec<Gate>,
    // Boxed: references into these live across calls into the code under test.
    pub ww: Vec<Box<WW>>,
    pub calls: Vec<Box<Call>>,
    pub th: Vec<ThSt>,
    pub later: Vec<(u64, u64, Box<dyn FnOnce()>)>,
    pub later_seq: u64,
    pub deferred: Vec<(u64, &'static str, &'static str, Box<dyn Fn() -> Option<String>>)>,
    pub defer: bool,
    pub ids: u64,
    pub nthreads: usize,
    pub vals: u64,
    pub stop: bool,
    /// The end of the run: wakers do nothing any more.
    pub ending: bool,
    pub strict: bool,
    pub bursts: Vec<(Timer, usize)>,
    pub wbursts: Vec<(Arc<Dev>, Fut<std::io::Result<()>>, usize, usize)>,
    pub residents: Vec<std::thread::JoinHandle<()>>,
    pub res_wids: Vec<usize>,
    pub res_n: u64,
    pub wsh: Vec<u64>,
    /// Timers cancelled or moved while a task was waiting for them.
    pub tcancels: u64,
    /// Handle creations that failed.
    pub hfails: u64,
}
static mut WP: *mut World = std::ptr::null_mut();
pub fn w() -> &'static mut World {
    unsafe { &mut *WP }
}

pub fn tg(base: &'static str) -> &'static str {
    w().over.unwrap_or(base)
}
/// Both.
pub fn tgx(base: &str) -> String {
    match w().over {
        Some(o) => format!("{},{}", base, o),
        None => base.to_string(),
    }
}
pub fn to_inst(ns: i128) -> Option<Instant> {
    let d = ns - w().base_n as i128;
    let dur = |x: i128| -> Option<Duration> { Some(Duration::new(u64::try_from(x / 1_000_000_000).ok()?, (x % 1_000_000_000) as u32)) };
    if d >= 0 {
        w().base_i.checked_add(dur(d)?)
    } else {
        w().base_i.checked_sub(dur(-d)?)
    }
}
pub fn of_inst(i: Instant) -> i128 {
    let b = w().base_i;
    let n = w().base_n as i128;
    if i >= b {
        n + (i - b).as_nanos() as i128
    } else {
        n - (b - i).as_nanos() as i128
    }
}
/// Instants beyond what the platform can represent.
fn overflows(ns: i128) -> bool {
    ns / 1_000_000_000 > i64::MAX as i128
}

/// An expectation with the standard grace; in runs with failing system calls it is checked once they have stopped.
pub fn expect(t: u64, props: &'static str, class: &'static str, done: impl Fn() -> Option<String> + 'static) {
    if w().defer && faults_on() {
        w().deferred.push((t, props, class, Box::new(done)));
    } else {
        expect_by(t.saturating_add(w().bound), slack(), props, class, done);
    }
}

// ---------------------------------------------------------------- wakers
pub fn new_w(kind: WK, label: &str) -> usize {
    let (id, h) = new_waker(label);
    while w().ww.len() <= id {
        w().ww.push(Box::new(WW { kind: WK::Plain, h: None, regs: vec![], nreg: 0, reset: false, panics: false, act: None, drop_act: None, calls: vec![] }));
    }
    w().ww[id].kind = kind;
    w().ww[id].h = Some(h);
    on_wake(id, move || woken(id));
    on_drop(id, move || {
        if let Some((a, x)) = w().ww[id].drop_act.take() {
            if a == 99 {
                if in_runtime() && !std::thread::panicking() {
                    log(|| format!("w{}: dropping the last reference panics", id));
                    k().count(f::WAKER_PANIC);
                    std::panic::panic_any("SIMPANIC waker".to_string());
                }
                return;
            }
            log(|| format!("w{}: dropping the last reference runs action {}", id, a));
            react_action(a, x);
        }
    });
    id
}
/// Is this thread running code of the crate that no call of the user asked for?
fn in_runtime() -> bool {
    let t = &k().ths[tid() as usize];
    t.name == "thread" || w().th[tid() as usize].stack.last().is_some_and(|c| !w().calls[*c].in_poll && !w().calls[*c].done && !w().calls[*c].exec)
}
fn waker_of(id: usize) -> Waker {
    // Borrow without touching the reference count of our own handle.
    w().ww[id].h.as_ref().expect("HARNESS waker handle").clone()
}
fn woken(id: usize) {
    let kind = w().ww[id].kind;
    match kind {
        WK::Timer => {
            let n = now() as i128;
            let regs = &*w().ww[id].regs;
            let legit = regs.iter().any(|(d, c)| *d <= n && c.is_none_or(|c| *d < c as i128 + SEC as i128));
            if !legit && !regs.is_empty() {
                let cancelled = regs.iter().any(|(d, c)| *d <= n && c.is_some());
                let m = format!("waker w{} of a timer woken without a due schedule; schedules (deadline, cancelled at): {:?}", id, regs);
                let was_reset = w().ww[id].reset;
                violate(
                    match (cancelled, was_reset) {
                        (true, false) => "T05",
                        (true, true) => "T04,T05",
                        (false, false) => "B05",
                        (false, true) => "B05,T04",
                    },
                    if cancelled { "CANCELLED_WAKE" } else { "EARLY_WAKE" },
                    &m,
                );
            }
            if wakes(id) > w().ww[id].nreg {
                violate("B05", "REPEATED_WAKE", &format!("waker w{} woken {} times for {} timer registrations", id, wakes(id), w().ww[id].nreg));
            }
        }
        WK::Wait => {
            // Replacing a poll_readable waker may add one wake for a registration.
            if wakes(id) > 2 * w().ww[id].nreg {
                violate("B05", "REPEATED_WAKE", &format!("waker w{} woken {} times after {} polls", id, wakes(id), w().ww[id].nreg));
            }
        }
        WK::Relay(c) => relay(c),
        WK::Plain => {}
    }
    if let Some((a, x)) = w().ww[id].act.take() {
        log(|| format!("w{}: waking runs action {}", id, a));
        react_action(a, x);
    }
    if w().ww[id].panics {
        k().count(f::WAKER_PANIC);
        std::panic::panic_any("SIMPANIC waker".to_string());
    }
}
/// A waker of a block_on (or executor) call was invoked.
fn relay(c: usize) {
    let call = &mut *w().calls[c];
    let done = call.done;
    let p0 = call.polls;
    if done {
        // Delivered after the future completed: it may leak into a running or the next call of that thread.
        for x in w().th[call.tid as usize].stack.clone() {
            if !w().calls[x].done {
                w().calls[x].allow += 1;
            }
        }
    } else {
        call.fwd += 1;
        if call.in_poll {
            // The clock starts when the poll is over.
            call.woken_in = true;
        } else {
            oblige_call(c, p0);
        }
    }
    // While it is being delivered, a call that begins on that thread may get it.
    let t = w().calls[c].tid as usize;
    w().th[t].flying += 1;
    let inner = w().calls[c].inner.clone();
    if let Some(i) = inner {
        i.wake_by_ref();
    }
    signal();
    w().th[t].flying -= 1;
}
fn oblige_call(c: usize, p0: u64) {
    expect(now(), tg("B01"), "LOST_WAKEUP", move || {
        let call = &*w().calls[c];
        if call.done || call.polls > p0 {
            None
        } else {
            Some(format!("the waker of block_on call {} on thread t{} was invoked, but its future was not polled again", c, call.tid))
        }
    });
}
/// Pick the waker for a poll: 0 reuse, 1 fresh, 2 fresh and panicking, 3 fresh with an action on wake,
/// 4 fresh with an action when its last reference goes away (we keep none), 5 fresh and panicking then.
fn pick_waker(kind: WK, prev: Option<usize>, mode: u64, arg: u64) -> usize {
    if mode == 0 {
        if let Some(p) = prev {
            if w().ww[p].kind == kind && w().ww[p].h.is_some() && w().ww[p].drop_act.is_none() && w().ww[p].act.is_none() {
                return p;
            }
        }
    }
    let id = new_w(kind, if kind == WK::Timer { "timer" } else { "wait" });
    match mode {
        2 => w().ww[id].panics = true,
        3 => w().ww[id].act = Some((arg % 16, arg / 16)),
        4 => w().ww[id].drop_act = Some((arg % 16, arg / 16)),
        5 => w().ww[id].drop_act = Some((99, 0)),
        _ => {}
    }
    id
}
/// Actions run from inside wakers.
fn react_action(a: u64, x: u64) {
    let t = tid() as usize;
    if w().th[t].depth >= 3 || w().ending {
        return;
    }
    w().th[t].depth += 1;
    probe(1);
    let o = match a {
        0 => op(0, "tdrop", &[x]),
        1 => op(0, "tnew", &[x, 0, 2 * MS, 0, 1]),
        2 => op(0, "tset", &[x, 0, 3 * MS]),
        3 => op(0, "wcancel", &[x]),
        4 => op(0, "wpoll", &[x, 1]),
        5 => op(0, "ddrop", &[x]),
        6 => op(0, "dnew", &[x, 1]),
        7 => op(0, "tpoll", &[x, 1]),
        8 => op(0, "open", &[x]),
        9 => op(0, "dset", &[x, 0, 1]),
        10 => op(0, "wait", &[x, x, x % 6, 1]),
        11 => op(0, "tset", &[x, 2, 5 * MS]),
        12 => op(0, "tpoll", &[x, 0]),
        13 => op(0, "dset", &[x, 1, 1]),
        15 if x == 0 => op(0, "tclear", &[]),
        15 if x == 1 => op(0, "wclear", &[]),
        15 if x == 2 => op(0, "tburst", &[600, 3600 * SEC, 10, 100]),
        _ => op(0, "tnew", &[x, 2, MS, 0, 1]),
    };
    // Registrations refused in here are not those of the poll outside.
    let modf = simk::kern::cur().modf;
    exec(&o);
    simk::kern::cur().modf = modf;
    w().th[t].depth -= 1;
}

// ---------------------------------------------------------------- timers
fn cancel_regs(s: &mut TSlot, t0: u64) {
    w().tcancels += 1;
    for id in s.live.drain(..) {
        for r in w().ww[id].regs.iter_mut() {
            if r.1.is_none() {
                r.1 = Some(t0);
            }
        }
    }
}
/// A waker is registered with one timer slot at a time, except in bursts.
fn add_reg(s: &mut TSlot, id: usize, d: i128) {
    let x = &mut *w().ww[id];
    x.regs.push((d, None));
    x.nreg += 1;
    if !s.live.contains(&id) {
        s.live.push(id);
    }
}
fn dur(ns: u64) -> Duration {
    if ns == u64::MAX {
        Duration::MAX
    } else if ns == u64::MAX - 1 {
        Duration::new(i64::MAX as u64, 0)
    } else {
        Duration::from_nanos(ns)
    }
}
/// kind: 0 after, 1 at, 2 interval, 3 interval_at, 4 never.  Returns the constructor / setter arguments and the model.
enum Spec {
    After(Duration),
    At(Instant),
    Interval(Duration),
    IntervalAt(Instant, Duration),
    Never,
}
fn spec(kind: u64, x: u64, y: u64) -> (Spec, Option<i128>) {
    let at = |x: u64| {
        let mut ns = now() as i128 + x as i64 as i128;
        if (SAME..SAME + 256).contains(&x) {
            // The very instant that another timer (or this one) is set for, or the nanosecond before or after.
            ns = match &w().ts[(x >> 2) as usize % NT].sched {
                Some(sc) if sc.lo == sc.hi => sc.lo + (x & 3) as i128 - 1,
                _ => now() as i128,
            };
        }
        if (GRID..GRID + 4).contains(&x) {
            // The next point of a grid, which timers of other threads are set for as well.
            let q = [5 * MS, 50 * MS, SEC, 20 * SEC][(x - GRID) as usize];
            ns = w().base_n as i128 + ((now() - w().base_n + MS).div_ceil(q) * q) as i128;
        }
        (to_inst(ns).expect("HARNESS instant"), ns)
    };
    match kind {
        0 => (Spec::After(dur(x)), None),
        1 => {
            let (i, n) = at(x);
            (Spec::At(i), Some(n))
        }
        2 => (Spec::Interval(dur(x)), None),
        3 => {
            let (i, n) = at(x);
            (Spec::IntervalAt(i, dur(y)), Some(n))
        }
        _ => (Spec::Never, None),
    }
}
fn model(sp: &Spec, at: Option<i128>, t0: u64, t1: u64) -> Option<Sched> {
    match sp {
        Spec::After(d) => {
            let lo = t0 as i128 + d.as_nanos() as i128;
            let hi = t1 as i128 + d.as_nanos() as i128;
            if overflows(lo) {
                None
            } else {
                Some(Sched { lo, hi, per: None })
            }
        }
        Spec::Interval(d) => {
            let lo = t0 as i128 + d.as_nanos() as i128;
            let hi = t1 as i128 + d.as_nanos() as i128;
            if overflows(lo) {
                None
            } else {
                Some(Sched { lo, hi, per: Some(d.as_nanos()) })
            }
        }
        Spec::At(_) => Some(Sched { lo: at.unwrap(), hi: at.unwrap(), per: None }),
        Spec::IntervalAt(_, p) => Some(Sched { lo: at.unwrap(), hi: at.unwrap(), per: Some(p.as_nanos()) }),
        Spec::Never => None,
    }
}
fn ambiguous(sp: &Spec, t0: u64) -> bool {
    // A deadline right at the edge of what can be represented: the model cannot tell.
    match sp {
        Spec::After(d) | Spec::Interval(d) => {
            let lo = t0 as i128 + d.as_nanos() as i128;
            overflows(lo + 3_600_000_000_000) != overflows(lo)
        }
        _ => false,
    }
}
fn ttags(s: &TSlot, t01: bool) -> &'static str {
    let iv = s.sched.as_ref().is_some_and(|x| x.per.is_some()) || s.items > 0;
    match (t01, iv, s.reset) {
        (true, false, false) => "T01",
        (true, true, false) => "T01,T03",
        (true, false, true) => "T01,T04",
        (true, true, true) => "T01,T03,T04",
        (false, false, false) => "T02,B03",
        (false, true, false) => "T02,T03,B03",
        (false, false, true) => "T02,T04,B03",
        (false, true, true) => "T02,T03,T04,B03",
    }
}
/// The timer of the slot must wake `id` once its schedule is due, unless the slot is touched again.
fn oblige_timer(slot: usize, id: usize, c0: u64, tags: &'static str) {
    let s = &w().ts[slot];
    let Some(sc) = s.sched.clone() else { return };
    let gen = s.gen;
    let t = sc.hi.max(now() as i128);
    if t > u64::MAX as i128 / 2 {
        return;
    }
    if t - now() as i128 > 3600 * SEC as i128 {
        return;
    }
    let tc = w().tcancels;
    expect(t as u64, tags, "TIMER_NOT_WOKEN", move || {
        let s = &w().ts[slot];
        if s.gen != gen || wakes(id) > c0 {
            return None;
        }
        extra_tags(tc, 0);
        Some(format!("timer in slot {} was due at {} (model {}..{}) but waker w{} of its last poll was not woken", slot, t, sc.lo, sc.hi, id))
    });
}
fn t_new(slot: usize, kind: u64, x: u64, y: u64) {
    let s = &mut w().ts[slot];
    if s.busy {
        return;
    }
    t_drop(slot);
    let s = &mut w().ts[slot];
    if s.busy {
        return;
    }
    s.busy = true;
    s.gen += 1;
    let (sp, at) = spec(kind, x, y);
    let t0 = now();
    let t = match &sp {
        Spec::After(d) => Timer::after(*d),
        Spec::At(i) => Timer::at(*i),
        Spec::Interval(d) => Timer::interval(*d),
        Spec::IntervalAt(i, d) => Timer::interval_at(*i, *d),
        Spec::Never => Timer::never(),
    };
    let t1 = now();
    log(|| format!("timer {} created kind {} x {} y {}", slot, kind, x, y));
    let m = model(&sp, at, t0, t1);
    let s = &mut w().ts[slot];
    if t.will_fire() != m.is_some() && !ambiguous(&sp, t0) {
        violate("T01", "WILL_FIRE", &format!("a new timer in slot {} says will_fire() = {}, the model says {}", slot, t.will_fire(), m.is_some()));
    }
    s.sched = if t.will_fire() { m.or(Some(Sched { lo: i128::MIN, hi: i128::MAX, per: None })) } else { None };
    s.t = Some(t);
    s.reset = false;
    s.att = None;
    s.last = None;
    s.items = 0;
    s.busy = false;
}
fn t_drop(slot: usize) {
    let s = &mut w().ts[slot];
    if s.busy || s.t.is_none() {
        return;
    }
    s.gen += 1;
    let t0 = now();
    cancel_regs(s, t0);
    s.att = None;
    s.last = None;
    s.sched = None;
    s.busy = true;
    let t = s.t.take();
    drop(t);
    w().ts[slot].busy = false;
    log(|| format!("timer {} dropped", slot));
}
/// Poll the timer of a slot; None if there is nothing to poll.
fn t_poll(slot: usize, wk: &Waker, id: usize, stream: bool) -> Option<Poll<i128>> {
    let s = &mut w().ts[slot];
    if s.busy || s.t.is_none() {
        return None;
    }
    s.busy = true;
    s.gen += 1;
    let mut t = s.t.take().unwrap();
    let before = s.sched.clone();
    // Possible registrations made by this poll.
    if let Some(sc) = &before {
        add_reg(s, id, sc.lo);
        if let Some(p) = sc.per {
            add_reg(s, id, sc.lo.saturating_add(p as i128));
        }
    }
    let c0 = wakes(id);
    let t0 = now();
    let n0 = last_clock().1;
    let outer = first_clock_reset();
    let mut cx = Context::from_waker(wk);
    let r = if stream {
        match Pin::new(&mut t).poll_next(&mut cx) {
            Poll::Ready(Some(i)) => Poll::Ready(i),
            Poll::Ready(None) => violate("T01,T03", "STREAM_END", "the timer stream ended"),
            Poll::Pending => Poll::Pending,
        }
    } else {
        Pin::new(&mut t).poll(&mut cx)
    };
    let t1 = now();
    // A poll inside this one (from a waker) has a reading of its own.
    let saw = first_clock();
    first_clock_restore(outer.or(saw));
    let (lc, n1) = last_clock();
    let seen = if n1 > n0 { lc } else { t1 };
    let s = &mut w().ts[slot];
    s.t = Some(t);
    let tags = ttags(s, true);
    let out = match r {
        Poll::Ready(i) => {
            let x = of_inst(i);
            log(|| format!("timer {} polled by w{}: {}", slot, id, x));
            let Some(sc) = before else {
                violate(tags, "UNSET_FIRED", &format!("timer in slot {} yields {} although it is not set", slot, x));
            };
            if x < sc.lo || x > sc.hi {
                violate(tags, "WRONG_INSTANT", &format!("timer in slot {} yields {} but was set for {}..{} (item {})", slot, x, sc.lo, sc.hi, s.items));
            }
            if x > seen as i128 {
                violate(tags, "EARLY", &format!("timer in slot {} yields {} when the clock only shows {}", slot, x, seen));
            }
            s.items += 1;
            s.att = None;
            s.sched = match sc.per {
                Some(p) if !overflows(x.saturating_add(p as i128)) => Some(Sched { lo: x + p as i128, hi: x + p as i128, per: Some(p) }),
                _ => None,
            };
            if sc.per.is_none() {
                s.items = 0;
            }
            s.last = Some(id);
            Poll::Ready(x)
        }
        Poll::Pending => {
            log(|| format!("timer {} polled by w{}: pending", slot, id));
            if let Some(sc) = &before {
                // What the clock showed when the poll first looked at it.
                let saw = saw.unwrap_or(t0);
                if sc.hi <= saw as i128 {
                    violate(tags, "LATE", &format!("timer in slot {} set for {}..{} is still pending when polled at {} (clock first read as {})", slot, sc.lo, sc.hi, t0, saw));
                }
            }
            s.att = Some(id);
            s.last = Some(id);
            oblige_timer(slot, id, c0, tg(ttags(&w().ts[slot], false)));
            Poll::Pending
        }
    };
    w().ts[slot].busy = false;
    Some(out)
}
fn t_poll_op(slot: usize, mode: u64, arg: u64, stream: bool) {
    let s = &w().ts[slot];
    if s.busy || s.t.is_none() {
        return;
    }
    let last = s.last;
    // Nobody else gets the timer meanwhile: the waker is for this one.
    w().ts[slot].busy = true;
    let id = pick_waker(WK::Timer, last, mode, arg);
    let wk = waker_of(id);
    w().ts[slot].busy = false;
    t_poll(slot, &wk, id, stream);
    drop(wk);
    if mode == 4 || mode == 5 {
        let h = w().ww[id].h.take();
        drop(h);
    }
}
/// Poll the timer such that the first value it reads from the clock is its instant, or just before or after.
fn t_exact(slot: usize, mode: u64, off: u64, stream: bool) {
    let when = || {
        let s = &w().ts[slot];
        match &s.sched {
            Some(sc) if !s.busy && sc.lo == sc.hi && sc.hi > now() as i128 && sc.hi - (now() as i128) < 2 * SEC as i128 => Some(sc.hi as u64 + off - 1),
            _ => None,
        }
    };
    let Some(t) = when() else { return };
    if t > now() + 20_000 {
        sleep(t - 20_000 - now());
    }
    if when() == Some(t) {
        probe(4);
        exact_clock(t);
        t_poll_op(slot, mode, 0, stream);
        exact_clock(0);
    }
}
fn t_set(slot: usize, kind: u64, x: u64, y: u64) {
    let s = &mut w().ts[slot];
    if s.busy || s.t.is_none() || kind > 3 {
        return;
    }
    s.busy = true;
    s.gen += 1;
    let mut t = s.t.take().unwrap();
    let (sp, at) = spec(kind, x, y);
    let t0 = now();
    for id in &*s.live {
        w().ww[*id].reset = true;
    }
    cancel_regs(s, t0);
    let c0 = s.att.map_or(0, wakes);
    let last = s.last;
    if let Some(id) = last {
        if let Some(m) = model(&sp, at, t0, t0) {
            add_reg(s, id, m.lo);
        }
    }
    match &sp {
        Spec::After(d) => t.set_after(*d),
        Spec::At(i) => t.set_at(*i),
        Spec::Interval(d) => t.set_interval(*d),
        Spec::IntervalAt(i, d) => t.set_interval_at(*i, *d),
        Spec::Never => {}
    }
    let t1 = now();
    log(|| format!("timer {} reset to kind {} x {} y {}", slot, kind, x, y));
    let m = model(&sp, at, t0, t1);
    let s = &mut w().ts[slot];
    if t.will_fire() != m.is_some() && !ambiguous(&sp, t0) {
        violate("T04", "WILL_FIRE", &format!("after a reset, the timer in slot {} says will_fire() = {}, the model says {}", slot, t.will_fire(), m.is_some()));
    }
    s.sched = if t.will_fire() { m.or(Some(Sched { lo: i128::MIN, hi: i128::MAX, per: None })) } else { None };
    s.t = Some(t);
    s.reset = true;
    s.items = 0;
    if let Some(id) = s.att {
        if s.sched.is_some() {
            probe(2);
        }
        oblige_timer(slot, id, c0, tg("T02,T04"));
    }
    w().ts[slot].busy = false;
}
/// Many timers at once, above the size of any internal queue.  Some are dropped again at once.
fn t_burst(n: u64, d: u64, spread: u64, keep: u64) {
    let mut kept = 0;
    let start = now();
    let back = keep >= 1000;
    let keep = keep % 1000;
    for j in 0..n {
        // The latest deadline first, or last.
        let i = if back { n - 1 - j } else { j };
        let t0 = if spread == 0 { start } else { now() };
        // All at the same instant, or one after another.
        let mut t = if spread == 0 { Timer::at(to_inst((start + d) as i128).unwrap()) } else { Timer::after(Duration::from_nanos(d + i * spread)) };
        let due = if spread == 0 { start + d } else { now() + d + i * spread };
        let id = new_w(WK::Timer, "burst");
        let wk = w().ww[id].h.take().unwrap();
        {
            let x = &mut *w().ww[id];
            x.regs.push(((t0 + d + i * spread) as i128, None));
            x.nreg += 1;
        }
        let mut cx = Context::from_waker(&wk);
        let r = Pin::new(&mut t).poll(&mut cx);
        match r {
            Poll::Ready(_) => drop(t),
            Poll::Pending => {
                let dropit = keep < 100 && (i * 37) % 100 >= keep;
                if dropit {
                    w().ww[id].regs.clear();
                    w().ww[id].regs.push(((t0 + d + i * spread) as i128, Some(now())));
                    w().tcancels += 1;
                    drop(t);
                } else {
                    w().bursts.push((t, id));
                    kept += 1;
                    let tc = w().tcancels;
                    expect(due.max(now()), tg("T02,B03"), "TIMER_NOT_WOKEN", move || {
                        if wakes(id) > 0 || w().ww[id].regs[0].1.is_some() {
                            None
                        } else {
                            extra_tags(tc, 0);
                            Some(format!("timer {} of a burst of {} was due at {} but its waker was not woken", i, n, due))
                        }
                    });
                }
            }
        }
        drop(wk);
    }
    log(|| format!("burst of {} timers, {} kept", n, kept));
}

/// Drop all timers of bursts.
fn t_clear() {
    for (t, id) in std::mem::take(&mut w().bursts) {
        let n = now();
        if wakes(id) == 0 {
            w().ww[id].regs[0].1 = Some(n);
            w().tcancels += 1;
        }
        drop(t);
    }
}

/// Many handles at once, each with a pending wait; all become ready (nearly) together.
fn w_burst(n: u64, dirs: u64, at_: u64, spread: u64) {
    let mut ids = vec![];
    for i in 0..n {
        let Ok((fd, file)) = vfs::dev_new(false, false) else { break };
        let v = unsafe { VDev::from_fd(fd) };
        let Ok(d) = simg::dev_new(v) else { continue };
        let arc = Arc::new(d);
        let dir = if dirs == 2 { i % 2 } else { dirs } as usize;
        let mut fut = if dir == 0 { arc.readable_owned_() } else { arc.writable_owned_() };
        let id = new_w(WK::Wait, "wburst");
        let wk = w().ww[id].h.take().unwrap();
        w().ww[id].nreg += 1;
        let r = fut.as_mut().poll(&mut Context::from_waker(&wk));
        match r {
            Poll::Pending => {
                w().wbursts.push((arc, fut, id, file));
                ids.push((id, file, dir));
            }
            Poll::Ready(Ok(())) => violate("R02,R04", "NOT_FRESH", &format!("the wait on the new file {} completed at once although it was never ready", file)),
            Poll::Ready(Err(e)) => {
                if k().vfs.files[file].mod_fail == 0 {
                    violate(tg("R01"), "WAIT_ERROR", &format!("a wait on file {} failed with {} although the OS reported no error", file, e));
                }
                simg::drop_fut(fut);
                drop_dev(arc);
            }
        }
        drop(wk);
    }
    log(|| format!("{} handles with waits", ids.len()));
    for (i, (id, file, dir)) in ids.into_iter().enumerate() {
        let t = now() + at_ + spread * i as u64;
        at(t, move || {
            if !w().wbursts.iter().any(|x| x.2 == id) {
                return;
            }
            vfs::dev_set(file, dir, 2);
            expect(now(), tg("R01,B03"), "WAIT_NOT_WOKEN", move || {
                if wakes(id) > 0 || !w().wbursts.iter().any(|x| x.2 == id) {
                    return None;
                }
                Some(format!("file {} of many has been ready since {} but the waker w{} of the task waiting for it was not woken", file, t, id))
            });
        });
    }
}
/// Drop all handles of bursts, after a last look at the waits.
fn w_clear(look: bool) {
    for (arc, mut fut, id, file) in std::mem::take(&mut w().wbursts) {
        if look && wakes(id) > 0 {
            // It may have been woken for events of before its first poll: poll it when woken.
            let (nid, wk) = new_waker("wburst last");
            loop {
                let c = wakes(nid);
                match fut.as_mut().poll(&mut Context::from_waker(&wk)) {
                    Poll::Ready(Ok(())) => break,
                    Poll::Ready(Err(e)) => {
                        if k().vfs.files[file].mod_fail == 0 {
                            violate(tg("R01"), "WAIT_ERROR", &format!("a wait on file {} failed with {} although the OS reported no error", file, e));
                        }
                        break;
                    }
                    Poll::Pending => {}
                }
                if c > 4 || !wait_cond(Some(now() + 2 * SEC), &mut || wakes(nid) > c) {
                    violate(tg("R01"), "WAIT_STUCK", &format!("the wait on file {} does not complete although the file is ready ({} wakes)", file, c));
                }
            }
            drop(wk);
        }
        simg::drop_fut(fut);
        drop_dev(arc);
        check_closed(file);
    }
}

/// The descriptor that other runtimes wait on.
fn reactor_fd() {
    let Some(fd) = simg::reactor_fd() else { violate(&tgx("E01"), "NO_FD", "reactor_fd() returned nothing") };
    let file = k().vfs.file_of(fd).filter(|f| k().vfs.is_epoll(*f));
    let Some(file) = file else { violate(&tgx("E01"), "WRONG_FD", &format!("reactor_fd() returned {}, which is no open event queue", fd)) };
    log(|| format!("reactor_fd() = {} (file {})", fd, file));
    if w().rfd.is_some_and(|x| x != (fd, file)) {
        violate(&tgx("E01"), "FD_CHANGED", &format!("reactor_fd() returned {} after {}", fd, w().rfd.unwrap().0));
    }
    w().rfd = Some((fd, file));
    check_rfd();
}
fn check_rfd() {
    let Some((fd, file)) = w().rfd else { return };
    if k().vfs.file_of(fd) != Some(file) {
        violate(&tgx("E01"), "FD_CLOSED", &format!("the descriptor {} that reactor_fd() returned has been closed", fd));
    }
    if let Some(o) = k().vfs.ep_used.iter().find(|e| **e != file) {
        violate(&tgx("E01"), "OTHER_QUEUE", &format!("handles are registered in file {}, but reactor_fd() returned file {}", o, file));
    }
}

/// The same short-lived thing many times over: nothing may pile up.
/// kind: 0 handles refused by the OS, 1 cancelled waits, 2 handles created and dropped.
fn pile(kind: u64, n: u64) {
    let Ok((fd, file)) = vfs::dev_new(true, kind == 0) else { return };
    let v = unsafe { VDev::from_fd(fd) };
    let mut keep = None;
    let mut base = None;
    if kind == 1 {
        match simg::dev_new(v) {
            Ok(d) => keep = Some(Arc::new(d)),
            Err(_) => return,
        }
    } else {
        base = Some(v);
    }
    let id = new_w(WK::Wait, "pile");
    let wk = waker_of(id);
    let mut l0 = (0, 0);
    let mut done = 0;
    for i in 0..n + 100 {
        if i == 100 {
            l0 = crate::count::live();
        }
        match &keep {
            Some(d) => {
                let mut fut = if i % 2 == 0 { d.readable_owned_() } else { d.writable_() };
                w().ww[id].nreg += 1;
                if fut.as_mut().poll(&mut Context::from_waker(&wk)).is_ready() && k().vfs.files[file].mod_fail == 0 {
                    violate("R02", "NOT_FRESH", &format!("a wait on file {} completed although it was never ready", file));
                }
                simg::drop_fut(fut);
            }
            None => match simg::ref_new(fd, true) {
                Ok(h) if kind == 2 => simg::ref_drop(h),
                Ok(_) => violate("H02", "ERROR_SWALLOWED", &format!("creating a handle on descriptor {} succeeded although the OS refused it", fd)),
                Err(e) if kind == 2 && k().vfs.files[file].add_fail == 0 => violate("H02", "SPURIOUS_ERROR", &format!("creating a handle on descriptor {} failed with {} although the OS refused nothing", fd, e)),
                Err(_) => done += 1,
            },
        }
    }
    let l = crate::count::live();
    let (blocks, bytes) = (l.0 - l0.0, l.1 - l0.1);
    log(|| format!("{} times kind {} ({} failed): {} blocks, {} bytes", n, kind, done, blocks, bytes));
    let many = if kind == 1 { bytes >= 12 * n as i64 } else { blocks >= n as i64 / 2 };
    if many {
        let (p, what) = match kind {
            0 => ("H02", "failed handle creations"),
            1 => ("R03", "cancelled waits"),
            _ => ("H01,H02", "handles created and dropped"),
        };
        violate(p, "MEMORY_KEPT", &format!("after {} {} {} blocks of memory ({} bytes) are still in use", n, what, blocks, bytes));
    }
    drop(wk);
    if let Some(d) = keep {
        drop_dev(d);
    }
    drop(base);
}

// ---------------------------------------------------------------- devices and waits
fn ep_of(file: usize) -> &'static mut Ep {
    while w().eps.len() <= file {
        w().eps.push(Box::default());
    }
    &mut *w().eps[file]
}
fn delivered(file: usize, dir: usize) -> u64 {
    k().vfs.files[file].delivered[dir]
}
/// how: 0 new, 1 new_nonblocking, 2 try_from; flags: 1 = refuses epoll, 2 = blocking although created non-blocking.
fn d_new(slot: usize, how: u64, flags: u64) {
    let s = &mut w().ds[slot];
    if s.busy {
        return;
    }
    d_drop(slot);
    let s = &mut w().ds[slot];
    if s.busy || s.arc.is_some() {
        return;
    }
    s.busy = true;
    let raw = s.raw.take();
    let (v, file, fd, fresh) = match raw {
        Some(v) => (v, s.file, s.fd, false),
        None => {
            let nb = how == 1 && flags & 2 == 0;
            match vfs::dev_new(nb, flags & 1 != 0) {
                Ok((fd, file)) => (unsafe { VDev::from_fd(fd) }, file, fd, true),
                Err(_) => {
                    w().ds[slot].busy = false;
                    return;
                }
            }
        }
    };
    let nb0 = k().vfs.files[file].nonblock;
    let (af, nf) = (k().vfs.files[file].add_fail, k().vfs.files[file].nb_fail);
    let r = match how {
        1 => simg::dev_new_nb(v),
        2 => simg::dev_try_from(OwnedFd::from(v)),
        _ => simg::dev_new(v),
    };
    let fl = &k().vfs.files[file];
    let faulted = fl.add_fail > af || fl.nb_fail > nf || flags & 1 != 0;
    log(|| format!("device {} created on fd {} file {}: {:?}", slot, fd, file, r.as_ref().map(|_| ()).map_err(|e| e.to_string())));
    match r {
        Ok(d) => {
            if fl.add_fail > af || flags & 1 != 0 {
                violate("H02", "ERROR_SWALLOWED", &format!("creating a handle on descriptor {} succeeded although the OS refused a step", fd));
            }
            if fl.nb_fail > nf && !fl.nonblock {
                violate("H02", "ERROR_SWALLOWED", &format!("creating a handle on descriptor {} succeeded although non-blocking mode was refused", fd));
            }
            if fl.watchers.is_empty() {
                violate("H01", "NOT_REGISTERED", &format!("a new handle on descriptor {} is not registered with the OS", fd));
            }
            let want = if how == 1 { nb0 } else { true };
            if fl.nonblock != want {
                violate("H01", "NONBLOCK", &format!("after creation descriptor {} has non-blocking mode {}, expected {}", fd, fl.nonblock, want));
            }
            if d.as_raw_fd() != fd {
                violate("H01", "WRONG_FD", "the new handle has another descriptor");
            }
            let s = &mut w().ds[slot];
            s.arc = Some(Arc::new(d));
            s.file = file;
            s.fd = fd;
        }
        Err(e) => {
            if !faulted {
                violate("H02", "SPURIOUS_ERROR", &format!("creating a handle on descriptor {} failed with {} although the OS refused nothing", fd, e));
            }
            let ok = matches!(e.raw_os_error(), Some(libc::ENOMEM | libc::ENOSPC | libc::ENOTTY | libc::EPERM));
            if !ok {
                violate("H02", "WRONG_ERROR", &format!("creating a handle failed with {:?}, which is not what the OS reported", e));
            }
            probe(3);
            w().hfails += 1;
            let fl = &k().vfs.files[file];
            if fl.closes != 1 || fl.refs != 0 {
                violate("H02", "FAILED_NOT_CLOSED", &format!("after a failed creation descriptor {} was closed {} times", fd, fl.closes));
            }
        }
    }
    let _ = fresh;
    w().ds[slot].busy = false;
}
fn d_drop(slot: usize) {
    let s = &mut w().ds[slot];
    if s.busy {
        return;
    }
    if let Some(a) = s.arc.take() {
        s.busy = true;
        let file = s.file;
        let sole = Arc::strong_count(&a) == 1;
        simg::dev_drop_arc(a);
        log(|| format!("device {} dropped", slot));
        let s = &mut w().ds[slot];
        s.busy = false;
        if sole {
            check_closed(file);
        }
    }
    let s = &mut w().ds[slot];
    if !s.busy {
        if let Some(r) = s.raw.take() {
            s.busy = true;
            drop(r);
            w().ds[slot].busy = false;
        }
    }
}
fn check_closed(file: usize) {
    let fl = &k().vfs.files[file];
    if fl.refs != 0 || fl.closes != 1 {
        violate("H01", "NOT_CLOSED", &format!("after its handle was dropped, file {} has {} open descriptors and was closed {} times", file, fl.refs, fl.closes));
    }
}
/// how: 0 into_inner, 1 into an OwnedFd
fn d_unwrap(slot: usize, how: u64) {
    let s = &mut w().ds[slot];
    if s.busy || s.arc.is_none() {
        return;
    }
    let a = s.arc.take().unwrap();
    let (file, fd) = (s.file, s.fd);
    match Arc::try_unwrap(a) {
        Err(a) => s.arc = Some(a),
        Ok(d) => {
            s.busy = true;
            let nb = k().vfs.files[file].nonblock;
            let df0 = k().shm.faults[f::CTL_DEL];
            let r = if how == 1 { simg::dev_into_fd(d).map(|o| unsafe { VDev::from_fd(std::os::fd::IntoRawFd::into_raw_fd(o)) }) } else { simg::dev_into_inner(d) };
            let df1 = k().shm.faults[f::CTL_DEL];
            log(|| format!("device {} unwrapped: {:?}", slot, r.as_ref().map(|_| ()).map_err(|e| e.to_string())));
            let fl = &k().vfs.files[file];
            match r {
                Ok(v) => {
                    if v.as_raw_fd() != fd || fl.refs != 1 || fl.closes != 0 {
                        violate("H01", "UNWRAP_FD", &format!("unwrapping descriptor {} gave {} (open {} closed {})", fd, v.as_raw_fd(), fl.refs, fl.closes));
                    }
                    if !fl.watchers.is_empty() && df0 == df1 {
                        violate("H01", "UNWRAP_REGISTERED", &format!("unwrapped descriptor {} is still registered with the OS", fd));
                    }
                    if fl.nonblock != nb {
                        violate("H01", "UNWRAP_NONBLOCK", &format!("unwrapping descriptor {} changed its blocking mode", fd));
                    }
                    let s = &mut w().ds[slot];
                    s.raw = Some(v);
                }
                Err(e) => {
                    if df0 == df1 {
                        violate("H01", "UNWRAP_ERROR", &format!("unwrapping descriptor {} failed with {} although the OS refused nothing", fd, e));
                    }
                    if fl.refs != 0 || fl.closes != 1 {
                        violate("H01", "UNWRAP_LEAK", &format!("a failed unwrap left descriptor {} open {} times, closed {} times", fd, fl.refs, fl.closes));
                    }
                }
            }
            w().ds[slot].busy = false;
        }
    }
}
/// A second registration of a registered descriptor must fail and leave the first alone.
fn d_dup(slot: usize, nb: bool) {
    let s = &w().ds[slot];
    if s.busy || s.arc.is_none() {
        return;
    }
    let keep = s.arc.clone().unwrap();
    let (file, fd) = (s.file, s.fd);
    let c0 = k().vfs.files[file].closes;
    let r = simg::ref_new(fd, nb);
    let fl = &k().vfs.files[file];
    log(|| format!("second handle for fd {}: {:?}", fd, r.as_ref().map(|_| ()).map_err(|e| e.to_string())));
    match r {
        Ok(_) => violate("H02", "DUPLICATE_OK", &format!("a second handle for descriptor {} was created although the OS refuses it", fd)),
        Err(_) => {
            if fl.closes != c0 || fl.refs != 1 {
                violate("H02", "DUPLICATE_CLOSED", &format!("the refused second handle closed descriptor {}", fd));
            }
            if fl.watchers.is_empty() {
                violate("H02", "DUPLICATE_DEREGISTERED", &format!("the refused second handle deregistered descriptor {}", fd));
            }
        }
    }
    drop_dev(keep);
}
pub fn drop_dev(a: Arc<Dev>) {
    simg::dev_drop_arc(a);
}
fn d_set(file: usize, dir: usize, n: i64) {
    let was = vfs::dev_ready(file, dir);
    vfs::dev_set(file, dir, n);
    if !was && vfs::dev_ready(file, dir) {
        became_ready(file, dir);
    }
}
fn d_hup(file: usize, err: bool) {
    let was = [vfs::dev_ready(file, 0), vfs::dev_ready(file, 1)];
    vfs::dev_hup(file, true, err);
    for d in 0..2 {
        if !was[d] {
            became_ready(file, d);
        }
    }
}
/// What else a lost wakeup contradicts: waits and timers must survive the cancellation of others, and handles the
/// failed creation of another one.
fn extra_tags(tcancels: u64, cancels: u64) {
    if w().over.is_some() {
        return;
    }
    if w().tcancels > tcancels {
        k().extra += ",T05";
    }
    if cancels > 0 {
        k().extra += ",R03";
    }
    if w().hfails > 0 {
        k().extra += ",H02";
    }
}
fn became_ready(file: usize, dir: usize) {
    for i in 0..NW {
        if w().ws[i].as_ref().is_some_and(|x| x.file == file && x.dir == dir && x.pending) {
            oblige_wait(i);
        }
    }
}
fn oblige_wait(i: usize) {
    let x = w().ws[i].as_ref().unwrap();
    let (file, dir, gen, c0) = (x.file, x.dir, x.gen, x.c0);
    let Some(id) = x.wid else { return };
    let Some(d) = vfs::dev(file) else { return };
    let ep = d.ep[dir];
    let uid = w().wsh[i];
    let t = now();
    expect(t, tg("R01,B03"), "WAIT_NOT_WOKEN", move || {
        let Some(x) = w().ws[i].as_ref() else { return None };
        if w().wsh[i] != uid || x.gen != gen || wakes(id) > c0 {
            return None;
        }
        match vfs::dev(file) {
            Some(d) if d.ep[dir] == ep => {}
            _ => return None,
        }
        extra_tags(u64::MAX, ep_of(file).cancels);
        Some(format!(
            "file {} has been ready for {} since {} but waker w{} of the task waiting for it (wait {} kind {}) was not woken",
            file,
            if dir == 0 { "reading" } else { "writing" },
            t,
            id,
            i,
            x.kind
        ))
    });
}
/// kind: 0 readable 1 writable 2 readable_owned 3 writable_owned 4 poll_readable 5 poll_writable 6 read_with 7 write_with
fn wait_new(slot: usize, dslot: usize, kind: u64) -> bool {
    if w().ws[slot].as_ref().is_some_and(|x| x.over) {
        wait_end(slot);
    }
    if w().wbusy[slot] || w().ws[slot].is_some() {
        return false;
    }
    let d = &w().ds[dslot];
    if d.busy || d.arc.is_none() {
        return false;
    }
    let arc = d.arc.clone().unwrap();
    let file = d.file;
    let dir = (kind % 2) as usize;
    if kind >= 6 && !k().vfs.files[file].nonblock {
        // A blocking operation would block the thread, as it should.
        drop_dev(arc);
        return false;
    }
    if kind == 4 || kind == 5 {
        let e = ep_of(file);
        if e.used[dir] {
            drop_dev(arc);
            return false;
        }
        e.used[dir] = true;
    }
    // The inner future lives as long as the outer one, completed or not.
    fn m(mut f: Fut<std::io::Result<()>>) -> Fut<std::io::Result<u64>> {
        Box::pin(std::future::poll_fn(move |cx| f.as_mut().poll(cx).map(|r| r.map(|_| 0))))
    }
    w().wbusy[slot] = true;
    let fut = match kind {
        0 => Some(m(arc.readable_())),
        1 => Some(m(arc.writable_())),
        2 => Some(m(arc.readable_owned_())),
        3 => Some(m(arc.writable_owned_())),
        6 => Some(simg::dev_read_with(&arc, Box::new(move |v: &VDev| {
            let mut b = [0u8; 1];
            std::io::Read::read(&mut &*v, &mut b).map(|n| n as u64)
        }))),
        7 => Some(simg::dev_write_with(&arc, Box::new(move |v: &VDev| std::io::Write::write(&mut &*v, &[1]).map(|n| n as u64)))),
        _ => None,
    };
    w().ws[slot] = Some(Wt { arc, file, dir, kind, fut, wid: None, d0: None, c0: 0, gen: 0, pending: false, over: false });
    w().wbusy[slot] = false;
    w().wsh[slot] += 1;
    log(|| format!("wait {} kind {} on device {} file {}", slot, kind, dslot, file));
    true
}
fn wait_end(slot: usize) {
    // The slot must not be busy.
    let Some(x) = w().ws[slot].as_mut() else { return };
    if w().wbusy[slot] {
        return;
    }
    x.gen += 1;
    if x.kind == 4 || x.kind == 5 {
        ep_of(x.file).used[x.dir] = false;
    }
    let x = w().ws[slot].take().unwrap();
    w().wbusy[slot] = true;
    let manual = x.kind == 4 || x.kind == 5;
    let id = x.wid;
    let file = x.file;
    let Wt { fut, arc, .. } = x;
    if let Some(fu) = fut {
        if x.pending {
            ep_of(file).cancels += 1;
        }
        simg::drop_fut(fu);
    }
    let sole = Arc::strong_count(&arc) == 1;
    drop_dev(arc);
    if sole {
        check_closed(file);
    }
    w().wbusy[slot] = false;
    // The waker must be released (the wait's own references at least).
    if let (Some(id), false) = (id, manual) {
        if w().ww[id].kind == WK::Wait {
            expect(now(), tg("R03"), "WAKER_RETAINED", move || {
                let mine = w().ww[id].h.is_some() as i64;
                if refs(id) <= mine {
                    None
                } else {
                    Some(format!("waker w{} of a cancelled or completed wait is still held ({} references)", id, refs(id) - mine))
                }
            });
        }
    }
}
/// Poll a wait.  Returns None if there is nothing to poll, else whether it completed.
fn wait_poll(slot: usize, wk: &Waker, id: usize) -> Option<bool> {
    if w().wbusy[slot] {
        return None;
    }
    let x = w().ws[slot].as_mut()?;
    if x.over {
        wait_end(slot);
        return None;
    }
    if x.kind == 4 || x.kind == 5 {
        // Two tasks that poll the same direction keep waking each other, as documented.
        if let (WK::Relay(c), Some(p)) = (w().ww[id].kind, x.wid) {
            if let WK::Relay(q) = w().ww[p].kind {
                if q != c && !w().calls[q].done {
                    return None;
                }
            }
        }
    }
    w().wbusy[slot] = true;
    x.gen += 1;
    x.wid = Some(id);
    x.pending = false;
    let (file, dir, kind) = (x.file, x.dir, x.kind);
    if x.d0.is_none() {
        x.d0 = Some(delivered(file, dir));
    }
    let ep0 = if kind == 4 || kind == 5 {
        let e = ep_of(file);
        if e.d0[dir].is_none() {
            e.d0[dir] = Some(delivered(file, dir));
        }
        e.d0[dir]
    } else {
        x.d0
    };
    let d0 = ep0.unwrap();
    x.c0 = wakes(id);
    w().ww[id].nreg += 1;
    let mf0 = k().vfs.files[file].mod_fail;
    simk::kern::cur().modf = 0;
    let ie0 = k().shm.faults[f::IO_EINTR];
    let mut cx = Context::from_waker(wk);
    let mut fut = x.fut.take();
    let arc: *const Dev = &*x.arc;
    let r = match kind {
        4 => simg::dev_poll_readable(unsafe { &*arc }, &mut cx).map(|r| r.map(|_| 0)),
        5 => simg::dev_poll_writable(unsafe { &*arc }, &mut cx).map(|r| r.map(|_| 0)),
        _ => fut.as_mut().expect("HARNESS wait future").as_mut().poll(&mut cx),
    };
    let fl = &k().vfs.files[file];
    let x = w().ws[slot].as_mut().expect("HARNESS wait vanished");
    x.fut = fut;
    let del = delivered(file, dir);
    if simk::kern::cur().modf > 0 && !matches!(&r, Poll::Ready(Err(e)) if e.raw_os_error() == Some(libc::ENOMEM)) {
        violate(tg("F01"), "ERROR_LOST", &format!("wait {} (kind {}) on file {}: registering for readiness failed with ENOMEM but the poll returned {:?}", slot, kind, file, r));
    }
    let done = match r {
        Poll::Ready(Ok(v)) => {
            log(|| format!("wait {} polled by w{}: ready {}", slot, id, v));
            if kind < 6 && del <= d0 {
                let other = delivered(file, 1 - dir);
                violate(
                    "R02,R04",
                    "NOT_FRESH",
                    &format!(
                        "wait {} (kind {}) on file {} completed although the OS reported no {} readiness of it since the wait began (reports {} then and now; other direction {})",
                        slot,
                        kind,
                        file,
                        if dir == 0 { "read" } else { "write" },
                        del,
                        other
                    ),
                );
            }
            true
        }
        Poll::Ready(Err(e)) => {
            log(|| format!("wait {} polled by w{}: error {}", slot, id, e));
            if e.kind() == std::io::ErrorKind::WouldBlock {
                violate("A01", "WOULD_BLOCK", "an I/O operation returned WouldBlock to the caller");
            }
            let modf = fl.mod_fail > mf0 && e.raw_os_error() == Some(libc::ENOMEM);
            let opf = kind >= 6
                && match e.raw_os_error() {
                    Some(libc::EINTR) => k().shm.faults[f::IO_EINTR] > ie0,
                    Some(libc::EIO) => vfs::dev(file).is_some_and(|d| d.err),
                    Some(libc::EPIPE) => vfs::dev(file).is_some_and(|d| d.hup),
                    _ => false,
                };
            if !modf && !opf {
                violate(tg("R01"), "WAIT_ERROR", &format!("wait {} kind {} on file {} failed with {} although the OS reported no error", slot, kind, file, e));
            }
            true
        }
        Poll::Pending => {
            log(|| format!("wait {} polled by w{}: pending", slot, id));
            x.pending = true;
            false
        }
    };
    if done && (kind == 4 || kind == 5) {
        ep_of(file).d0[dir] = None;
    }
    if !done && vfs::dev_ready(file, dir) {
        oblige_wait(slot);
    }
    w().wbusy[slot] = false;
    if done {
        if kind < 4 && w().keep_done && w().ww[id].kind == WK::Wait && !w().ending {
            // The completed future stays around for a while.
            w().ws[slot].as_mut().unwrap().over = true;
        } else {
            wait_end(slot);
        }
    }
    Some(done)
}
fn w_poll_op(slot: usize, mode: u64, arg: u64) {
    if w().wbusy[slot] || w().ws[slot].is_none() {
        return;
    }
    let prev = w().ws[slot].as_ref().unwrap().wid;
    // Nobody else gets the wait meanwhile: the waker is for this one.
    w().wbusy[slot] = true;
    let id = pick_waker(WK::Wait, prev, mode, arg);
    let wk = waker_of(id);
    w().wbusy[slot] = false;
    wait_poll(slot, &wk, id);
    drop(wk);
    if mode == 4 || mode == 5 {
        let h = w().ww[id].h.take();
        drop(h);
    }
}

// ---------------------------------------------------------------- gates and delayed actions
fn open_gate(g: usize) {
    let gate = &mut w().gates[g];
    gate.open += 1;
    let list: Vec<usize> = gate.waiters.drain(..).collect();
    log(|| format!("gate {} opened", g));
    for id in list {
        let wk = w().ww[id].h.as_ref().map(|h| h.clone());
        if let Some(wk) = wk {
            wk.wake();
        }
    }
}
/// Run something on the helper thread at time t.
pub fn later(t: u64, act: impl FnOnce() + 'static) {
    w().later_seq += 1;
    let s = w().later_seq;
    let l = &mut w().later;
    let p = l.partition_point(|x| (x.0, x.1) < (t, s));
    l.insert(p, (t, s, Box::new(act)));
    signal();
}
fn helper() {
    loop {
        let dl = w().later.first().map(|x| x.0);
        wait_cond(dl, &mut || w().stop || w().later.first().map(|x| x.0) != dl || w().later.first().is_some_and(|x| x.0 <= now()));
        if w().stop {
            return;
        }
        if w().later.first().is_some_and(|x| x.0 <= now()) {
            let (_, _, a) = w().later.remove(0);
            a();
        }
    }
}

// ---------------------------------------------------------------- block_on and other executors
struct Body {
    call: usize,
    kind: u64,
    a: [u64; 6],
    step: u64,
    n: u64,
    limit: u64,
    val: u64,
}
impl Future for Body {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let b = self.get_mut();
        let c = b.call;
        let call = &mut *w().calls[c];
        if call.done {
            violate("B02", "POLL_AFTER_DONE", &format!("call {} polled its future after completion", c));
        }
        if call.tid != tid() {
            violate("B02", "WRONG_THREAD", "the future was polled on another thread");
        }
        if call.polls > call.fwd + call.allow {
            violate(
                &tgx("B02,B05"),
                "SPURIOUS_POLL",
                &format!("call {} polls its future for the {}th time after {} wakeups (and {} left over from finished calls)", c, call.polls + 1, call.fwd, call.allow),
            );
        }
        if call.polls == 0 {
            let mut p = call.parent;
            while let Some(q) = p {
                if w().calls[q].inner.as_ref().is_some_and(|i| i.will_wake(cx.waker())) {
                    violate("B02", "SHARED_WAKER", "a nested block_on uses the waker of an outer one");
                }
                p = w().calls[q].parent;
            }
        }
        let call = &mut *w().calls[c];
        call.polls += 1;
        let n = call.polls;
        if !call.exec && !call.inner.as_ref().is_some_and(|i| i.will_wake(cx.waker())) {
            let old = call.inner.replace(std::rc::Rc::new(cx.waker().clone()));
            drop(old);
        }
        log(|| format!("call {} poll {}", c, n));
        call.in_poll = true;
        call.woken_in = false;
        let r = b.run();
        let call = &mut *w().calls[c];
        call.in_poll = false;
        if call.woken_in && !r.is_ready() {
            let p0 = call.polls;
            oblige_call(c, p0);
        }
        if r.is_ready() {
            let call = &mut *w().calls[c];
            call.done = true;
            log(|| format!("call {} completes", c));
        }
        r
    }
}
impl Body {
    fn wk(&self) -> (Waker, usize) {
        let id = w().calls[self.call].wid;
        (waker_of(id), id)
    }
    fn run(&mut self) -> Poll<u64> {
        let (wk, id) = self.wk();
        let expired = now() >= self.limit;
        let a = self.a;
        let done = match self.kind {
            // Await n items of the timer in a slot.
            0 => {
                let slot = a[0] as usize % NT;
                let mut fin = expired;
                while !fin {
                    match t_poll(slot, &wk, id, a[2] != 0) {
                        None => fin = true,
                        Some(Poll::Pending) => break,
                        Some(Poll::Ready(_)) => {
                            self.step += 1;
                            if self.step >= a[1].max(1) {
                                fin = true;
                            } else if a[3] > 0 {
                                sleep(a[3]);
                            }
                        }
                    }
                }
                fin
            }
            // A fresh timer in a private slot-less timer: use slot too, created on the first poll.
            1 => {
                let slot = a[0] as usize % NT;
                if self.step == 0 {
                    self.step = 1;
                    t_new(slot, 0, a[1], 0);
                }
                expired || !matches!(t_poll(slot, &wk, id, false), Some(Poll::Pending))
            }
            // A readiness wait.
            2 => {
                let ws = a[0] as usize % NW;
                if self.step == 0 {
                    self.step = 1;
                    if !wait_new(ws, a[1] as usize % ND, a[2] % 8) {
                        self.step = 2;
                    }
                }
                if self.step == 2 {
                    true
                } else if expired {
                    wait_end(ws);
                    true
                } else {
                    !matches!(wait_poll(ws, &wk, id), Some(false))
                }
            }
            // A gate.
            3 => {
                let g = a[0] as usize % NG;
                if w().gates[g].open > 0 {
                    w().gates[g].open -= 1;
                    true
                } else {
                    w().gates[g].waiters.push_back(id);
                    expired
                }
            }
            // Yield n times.
            4 => {
                if self.step < a[0] {
                    self.step += 1;
                    if a[1] > 0 {
                        sleep(a[1]);
                    }
                    wk.wake_by_ref();
                    if a[2] & 1 != 0 {
                        wk.wake_by_ref();
                    }
                    false
                } else {
                    if a[2] & 2 != 0 {
                        // Woken once more by itself, then completes.
                        wk.wake_by_ref();
                    }
                    true
                }
            }
            // Leave a clone of the waker at a gate and complete.
            5 => {
                if a[1] & 1 != 0 {
                    wk.wake_by_ref();
                }
                w().gates[a[0] as usize % NG].waiters.push_back(id);
                true
            }
            // A nested call, then complete.
            6 => {
                if a[3] & 1 != 0 {
                    wk.wake_by_ref();
                }
                if self.step == 0 {
                    self.step = 1;
                    call(a[0] % 6, &[a[1], a[2], a[4], 0, 0, 0], false);
                    if a[3] & 2 != 0 {
                        wk.wake_by_ref();
                        false
                    } else {
                        true
                    }
                } else {
                    true
                }
            }
            // Panic at the n-th poll, woken by itself each time.
            7 => {
                if self.step >= a[0] {
                    if a[1] & 1 != 0 {
                        wk.wake_by_ref();
                    }
                    k().count(f::FUTURE_PANIC);
                    let call = &mut w().calls[self.call];
                    call.done = true;
                    drop(wk);
                    std::panic::panic_any("SIMPANIC future".to_string());
                }
                self.step += 1;
                wk.wake_by_ref();
                false
            }
            // Busy in the poll, then await a timer.
            8 => {
                if self.step == 0 {
                    self.step = 1;
                    for _ in 0..a[1] % 200 {
                        user_point();
                    }
                    sleep(a[3].min(20 * MS));
                    t_new(a[0] as usize % NT, 0, a[2], 0);
                }
                expired || !matches!(t_poll(a[0] as usize % NT, &wk, id, false), Some(Poll::Pending))
            }
            // Wait for several things with one waker; done when all are.
            9 => {
                let ws = a[0] as usize % NW;
                let slot = a[3] as usize % NT;
                if self.step == 0 {
                    self.step = 1;
                    wait_new(ws, a[1] as usize % ND, a[2] % 8);
                    t_new(slot, 0, a[4], 0);
                }
                if self.step == 1 && !matches!(t_poll(slot, &wk, id, false), Some(Poll::Pending)) {
                    self.step = 2;
                }
                let t = self.step == 2;
                let x = !matches!(wait_poll(ws, &wk, id), Some(false));
                if expired && !x {
                    wait_end(ws);
                }
                expired || (t && x)
            }
            // Serve a series of timers, then keep the thread busy, then one more.
            10 => {
                let slot = a[0] as usize % NT;
                loop {
                    if self.step > 0 && !expired && matches!(t_poll(slot, &wk, id, false), Some(Poll::Pending)) {
                        break false;
                    }
                    self.step += 1;
                    if expired || self.step > a[1] % 100 + 1 {
                        break true;
                    }
                    if self.step == a[1] % 100 + 1 {
                        sleep(a[3].min(400 * MS));
                    }
                    t_new(slot, 0, a[2], 0);
                }
            }
            // Take n tokens of a gate, with a timer that fires all the time.
            11 => {
                let slot = a[0] as usize % NT;
                let g = a[1] as usize % NG;
                while w().gates[g].open > 0 && self.step < a[3] {
                    w().gates[g].open -= 1;
                    self.step += 1;
                }
                self.n += 1;
                if expired || self.step >= a[3] || self.n > 120 {
                    true
                } else {
                    w().gates[g].waiters.push_back(id);
                    if matches!(t_poll(slot, &wk, id, false), None | Some(Poll::Ready(_))) {
                        t_new(slot, 0, a[2].max(1000), 0);
                        t_poll(slot, &wk, id, false);
                    }
                    false
                }
            }
            // Some timers, then wait until the run ends.
            12 => {
                let slot = a[0] as usize % NT;
                loop {
                    if self.step > 0 && !w().ending && matches!(t_poll(slot, &wk, id, false), Some(Poll::Pending)) {
                        break false;
                    }
                    self.step += 1;
                    if w().ending {
                        break true;
                    }
                    if self.step > a[2] {
                        w().res_wids.push(id);
                        break false;
                    }
                    t_new(slot, 0, a[1], 0);
                }
            }
            // Pass a token on from gate to gate: wait for it, perhaps await a timer, wake the next one from within the poll.
            13 => {
                let (g, to, slot) = (a[0] as usize % NG, a[1] as usize % NG, a[4] as usize % NT);
                loop {
                    if expired {
                        open_gate(to);
                        break true;
                    }
                    if self.n == 0 {
                        if w().gates[g].open == 0 {
                            w().gates[g].waiters.push_back(id);
                            break false;
                        }
                        w().gates[g].open -= 1;
                        self.n = 1;
                        if a[3] > 0 {
                            t_new(slot, 0, a[3], 0);
                        }
                    }
                    if a[3] > 0 && matches!(t_poll(slot, &wk, id, false), Some(Poll::Pending)) {
                        break false;
                    }
                    self.n = 0;
                    self.step += 1;
                    open_gate(to);
                    if self.step >= a[2] {
                        break true;
                    }
                }
            }
            _ => true,
        };
        if done {
            Poll::Ready(self.val)
        } else {
            Poll::Pending
        }
    }
}
/// A thread in block_on whose own future was not woken does not keep the reactor to itself.
fn served(t: usize) {
    let Some(c) = w().th[t].stack.last().copied() else { return };
    let c = &mut w().calls[c];
    if c.exec || c.in_poll || c.done {
        return;
    }
    let (n, s) = (now(), c.serving);
    if (s.0, s.1) != (c.fwd, c.polls) {
        c.serving = (c.fwd, c.polls, 1, n);
        return;
    }
    c.serving.2 += 1;
    if s.2 > 20 && n - s.3 > 50 * MS + slack() {
        violate(tg("B03"), "NEVER_STEPS_ASIDE", &format!("thread t{} has waited for events {} times in {} ms although its own future was not woken", t, s.2, (n - s.3) / MS));
    }
}
/// Run a body to completion with block_on, or polled by this thread only when woken.
fn call(kind: u64, a: &[u64; 6], exec: bool) {
    let t = tid() as usize;
    if w().th[t].stack.len() >= 3 {
        return;
    }
    let c = w().calls.len();
    let wid = new_w(WK::Relay(c), "call");
    let parent = w().th[t].stack.last().copied();
    let allow = w().th[t].flying;
    w().calls.push(Box::new(Call { tid: t as u32, wid, inner: None, polls: 0, fwd: 0, allow, done: false, parent, exec, start: now(), in_poll: false, woken_in: false, serving: (0, 0, 0, 0) }));
    w().th[t].stack.push(c);
    w().vals += 1;
    let val = w().vals * 7919 + t as u64;
    let limit = now() + if a[5] > 0 { a[5] } else { 3 * SEC };
    // Whatever the body waits for, it gives up at the limit.
    later(limit, move || {
        if !w().calls[c].done {
            let wk = w().ww[wid].h.as_ref().map(|h| h.clone());
            if let Some(wk) = wk {
                wk.wake();
            }
        }
    });
    log(|| format!("call {} kind {} {:?} ({})", c, kind, a, if exec { "executor" } else { "block_on" }));
    let body = Body { call: c, kind, a: *a, step: 0, n: 0, limit, val };
    if exec {
        let (wk, _) = body.wk();
        let mut body = Box::pin(body);
        let mut seen = 0;
        let mut cx = Context::from_waker(&wk);
        loop {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| body.as_mut().poll(&mut cx)));
            match r {
                Ok(Poll::Ready(_)) | Err(_) => break,
                Ok(Poll::Pending) => {}
            }
            wait_cond(None, &mut || w().calls[c].fwd > seen);
            seen += 1;
            let f = w().calls[c].fwd;
            seen = seen.max(f);
        }
    } else {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| simg::block_on(Box::pin(body))));
        match r {
            Ok(v) => {
                if kind == 7 {
                    violate("B04,B01", "PANIC_SWALLOWED", "block_on returned although its future panicked");
                }
                if v != val || !w().calls[c].done {
                    violate("B01", "WRONG_OUTPUT", &format!("block_on returned {} instead of {}", v, val));
                }
            }
            Err(p) => {
                let mine = p.downcast_ref::<String>().is_some_and(|s| s.contains("SIMPANIC future"));
                if !mine || kind != 7 {
                    // A waker's panic must not come out of block_on, and neither may any other.
                    if p.downcast_ref::<String>().is_some_and(|s| s.contains("SIMPANIC waker")) {
                        violate("B04", "WAKER_PANIC_ESCAPES", "the panic of a waker woken by the runtime came out of block_on");
                    }
                    if !w().th.iter().any(|_| kind == 6) {
                        violate("B04", "FOREIGN_PANIC", "block_on panicked with something its future did not raise");
                    }
                }
            }
        }
    }
    w().calls[c].done = true;
    let inner = w().calls[c].inner.take();
    drop(inner);
    w().th[t].stack.pop();
    log(|| format!("call {} returned", c));
}

// ---------------------------------------------------------------- interpreter
pub fn exec(o: &Op) {
    let a = &o.a;
    let ts = a[0] as usize % NT;
    let ds = a[0] as usize % ND;
    let ws = a[0] as usize % NW;
    match o.code {
        "sleep" => sleep(a[0]),
        // Threads that do the same go on at the same moment.
        "align" => {
            let q = a[0].max(1);
            sleep(q - (now() - w().base_n) % q);
        }
        "spin" => {
            for _ in 0..a[0] % 2000 {
                user_point();
            }
        }
        "tnew" => {
            t_new(ts, a[1] % 5, a[2], a[3]);
            if a[4] > 0 {
                t_poll_op(ts, a[4] % 6, a[5], false);
            }
        }
        "texact" => t_exact(ts, a[1] % 2, a[2] % 3, a[3] != 0),
        "tpoll" => t_poll_op(ts, a[1] % 5, a[2], a[3] != 0),
        "tset" => t_set(ts, a[1] % 4, a[2], a[3]),
        "tdrop" => t_drop(ts),
        "twill" => {
            let s = &w().ts[ts];
            if let (Some(t), false) = (&s.t, s.busy) {
                let m = s.sched.is_some();
                if t.will_fire() != m {
                    violate(if s.reset { "T01,T04" } else { "T01" }, "WILL_FIRE", &format!("timer {} says will_fire() = {}, the model says {}", ts, t.will_fire(), m));
                }
            }
        }
        "rfd" => reactor_fd(),
        "pile" => pile(a[0] % 3, a[1].min(3000)),
        "tburst" => t_burst(a[0] % 3000, a[1], a[2], a[3]),
        "tclear" => t_clear(),
        "wburst" => w_burst(a[0] % 1200, a[1] % 3, a[2], a[3]),
        "wclear" => w_clear(false),
        "dnew" => d_new(ds, a[1] % 3, a[2]),
        "ddrop" => d_drop(ds),
        "dunwrap" => d_unwrap(ds, a[1] % 2),
        "ddup" => d_dup(ds, a[1] & 1 != 0),
        "dset" => {
            let d = &w().ds[ds];
            if d.arc.is_some() {
                d_set(d.file, a[1] as usize % 2, (a[2] % 4) as i64);
            }
        }
        // Also while somebody is dropping the handle.
        "dsetold" => {
            let d = &w().ds[ds];
            if d.file != 0 {
                d_set(d.file, a[1] as usize % 2, (a[2] % 4) as i64);
            }
        }
        "dsetat" => {
            let d = &w().ds[ds];
            if d.arc.is_some() {
                let (file, dir, n) = (d.file, a[1] as usize % 2, (a[2] % 4) as i64);
                at(now() + a[3], move || d_set(file, dir, n));
            }
        }
        "dhup" => {
            let d = &w().ds[ds];
            if d.arc.is_some() {
                d_hup(d.file, a[1] & 1 != 0);
            }
        }
        "wait" => {
            if wait_new(ws, a[1] as usize % ND, a[2] % 8) {
                w_poll_op(ws, a[3].max(1) % 6, a[4]);
            }
        }
        "wpoll" => w_poll_op(ws, a[1] % 5, a[2]),
        "wcancel" => wait_end(ws),
        "open" => open_gate(a[0] as usize % NG),
        "openat" => {
            let g = a[0] as usize % NG;
            later(now() + a[1], move || open_gate(g));
        }
        // Open a gate n times.
        "opens" => {
            let g = a[0] as usize % NG;
            for i in 0..a[1] % 50 {
                later(now() + a[3] + i * a[2], move || open_gate(g));
            }
        }
        // A thread whose future waits for as long as the run takes.
        "resident" => {
            let a = *a;
            if w().residents.len() < 4 {
                w().res_n += 1;
                let h = spawn("resident", move || {
                    call(12, &[a[0], a[1], a[2] % 4, 0, 0, 3600 * SEC], false);
                });
                w().residents.push(h);
            }
        }
        "block" => call(if a[0] == 13 { 13 } else { a[0] % 12 }, &[a[1], a[2], a[3], a[4], a[5], 0], false),
        "exec" => call(if a[0] == 13 { 13 } else { a[0] % 12 }, &[a[1], a[2], a[3], a[4], a[5], 0], true),
        // Several quick block_on calls in a row.
        "churn" => {
            for _ in 0..a[0] % 20 {
                call(4, &[a[1] % 3, 0, a[2], 0, 0, 0], false);
            }
        }
        _ => {}
    }
}
/// Nothing is due for a while: nobody may do anything.
fn quiet(max: u64) {
    let nd = next_due();
    if nd < now() + 6 * SEC {
        return;
    }
    let len = (nd - now() - SEC).min(max);
    let n0 = nsys();
    let e0 = k().vfs.epwait_calls;
    let p0 = w().calls.iter().map(|c| c.polls).sum::<u64>();
    sleep(len);
    let d = nsys() - n0;
    if d > 30 {
        violate("B05", "NOT_IDLE", &format!("{} system calls ({} epoll waits) were made in {} s although nothing was due", d, k().vfs.epwait_calls - e0, len / SEC));
    }
    let pd = w().calls.iter().map(|c| c.polls).sum::<u64>() - p0;
    if pd > 0 {
        violate("B05,B02", "IDLE_POLL", &format!("futures of block_on were polled {} times in {} s although nothing was due", pd, len / SEC));
    }
    probe(0);
}
/// When the next timer is due or the simulation does something by itself.
fn next_due() -> u64 {
    let n = now();
    let mut d = u64::MAX;
    for s in &w().ts {
        // Also when nobody waits: after an item, a periodic timer is registered for the next one.
        if let Some(x) = s.sched.as_ref() {
            if x.lo >= n as i128 {
                d = d.min(x.lo.min(u64::MAX as i128) as u64);
            }
        }
    }
    for b in &w().bursts {
        let x = w().ww[b.1].regs[0].0;
        if x >= n as i128 {
            d = d.min(x.min(u64::MAX as i128) as u64);
        }
    }
    w().later.iter().fold(d, |d, l| d.min(l.0.max(n)))
}

pub fn setup(p: &Prog) {
    let base_i = Instant::now();
    let base_n = now();
    let over: Option<&'static str> = match p.family.as_str() {
        "fault" => Some("F01"),
        "reent" => Some("W01"),
        "wpanic" => Some("B04"),
        "init" => Some("N01"),
        _ => None,
    };
    let world = Box::new(World {
        over,
        rfd: None,
        keep_done: p.cfg.get("keepdone", 0) != 0,
        bound: p.cfg.get("bound", 100 * MS),
        base_i,
        base_n,
        ts: (0..NT).map(|_| TSlot::default()).collect(),
        ds: (0..ND).map(|_| DSlot { arc: None, raw: None, file: 0, fd: -1, busy: false }).collect(),
        eps: vec![],
        ws: (0..NW).map(|_| None).collect(),
        wbusy: vec![false; NW],
        gates: (0..NG).map(|_| Gate { open: 0, waiters: VecDeque::new() }).collect(),
        ww: vec![],
        calls: vec![],
        th: vec![ThSt::default(); 64],
        later: vec![],
        later_seq: 0,
        deferred: vec![],
        defer: p.family == "fault" || p.cfg.get("defer", 0) != 0,
        ids: 0,
        nthreads: 0,
        vals: 0,
        stop: false,
        ending: false,
        strict: true,
        bursts: vec![],
        wbursts: vec![],
        residents: vec![],
        res_wids: vec![],
        res_n: 0,
        wsh: vec![0; NW],
        tcancels: 0,
        hfails: 0,
    });
    unsafe { WP = Box::into_raw(world) };
    k().epwait_hook = Some(served);
    // One read of the clock ties Instants to nanoseconds.
    let i = Instant::now();
    w().base_n = last_clock().0;
    w().base_i = i;
}
pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> std::thread::JoinHandle<()> {
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    let s = S(f);
    let n = name.to_string();
    std::thread::Builder::new()
        .spawn(move || {
            let s = s;
            set_thread_name(&n);
            let S(f) = s;
            f();
        })
        .expect("HARNESS spawn")
}

pub fn run(p: &Prog) {
    setup(p);
    let helper_h = spawn("helper", helper);
    let nth = p.cfg.get("threads", 2).clamp(1, 6) as u32;
    let mut hs = vec![];
    scarce(p);
    for t in 0..nth {
        let ops: Rc<Vec<Op>> = Rc::new(p.ops.iter().filter(|o| o.th == t).cloned().collect());
        hs.push(spawn(&format!("user{}", t), move || {
            for o in ops.iter() {
                log(|| format!("op {} {:?}", o.code, o.a));
                user_point();
                exec(o);
            }
        }));
    }
    for h in hs {
        let _ = h.join();
    }
    epilogue(p, helper_h);
}
/// First uses while descriptors or threads cannot be had: their callers are told, and later uses find nothing broken.
fn scarce(p: &Prog) {
    let how = p.cfg.get("scarce", 0);
    if how == 0 {
        return;
    }
    let go = Rc::new(std::cell::Cell::new(false));
    let mut hs = vec![];
    for t in 6..9 {
        let ops: Vec<Op> = p.ops.iter().filter(|o| o.th == t).cloned().collect();
        if ops.is_empty() {
            continue;
        }
        let go = go.clone();
        hs.push(spawn(&format!("early{}", t), move || {
            let mut dev = vfs::dev_new(true, false).ok().map(|(fd, file)| (unsafe { VDev::from_fd(fd) }, file));
            wait_cond(None, &mut || go.get());
            let id = new_w(WK::Plain, "early");
            for o in ops {
                early(&o, id, &mut dev);
            }
        }));
    }
    // Wait until each of them has its descriptors.
    sleep(MS);
    let limit = k().vfs.fd_limit;
    if how & 7 != 0 {
        k().vfs.fd_limit = k().vfs.open_fds() + (how & 7) as usize - 1;
    }
    k().no_threads = how & 8 != 0;
    k().forgive = true;
    log(|| format!("first uses with {} descriptors left, threads {}", k().vfs.fd_limit, how & 8 == 0));
    go.set(true);
    signal();
    for h in hs {
        if h.join().is_err() {
            violate("*", "HARNESS", "an early thread died");
        }
    }
    k().vfs.fd_limit = limit;
    k().no_threads = false;
    k().forgive = false;
    log(|| "resources are back".to_string());
}
fn early(o: &Op, id: usize, dev: &mut Option<(VDev, usize)>) {
    let wk = waker_of(id);
    let file = dev.as_ref().map(|d| d.1);
    let kind = o.a[0] % 5;
    log(|| format!("early use {}", kind));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut cx = Context::from_waker(&wk);
        match kind {
            0 => {
                let mut t = Timer::after(Duration::from_millis(1));
                let _ = Pin::new(&mut t).poll(&mut cx);
                drop(t);
            }
            1 => {
                let v = simg::block_on(Box::pin(std::future::ready(77)));
                if v != 77 {
                    violate("B01", "WRONG_OUTPUT", &format!("block_on returned {} instead of 77", v));
                }
            }
            2 => {
                simg::block_on(Box::pin(async {
                    Timer::after(Duration::from_millis(1)).await;
                    0
                }));
            }
            3 => {
                if let Some((d, _)) = dev.take() {
                    match simg::dev_new(d) {
                        Ok(d) => simg::dev_drop(d),
                        Err(e) => log(|| format!("refused: {}", e)),
                    }
                }
            }
            _ => {
                let _ = simg::reactor_fd();
            }
        }
    }));
    if let (3, Some(f), true) = (kind, file, dev.is_none()) {
        check_closed(f);
    }
    log(|| format!("early use {}: {}", kind, if r.is_ok() { "ok" } else { "panicked" }));
}
fn pump_wait(slot: usize) {
    // Poll until it completes, only when woken.
    let id = new_w(WK::Wait, "final");
    let wk = waker_of(id);
    let t0 = now();
    loop {
        let c = wakes(id);
        match wait_poll(slot, &wk, id) {
            None | Some(true) => return,
            Some(false) => {}
        }
        if !wait_cond(Some(t0 + 2 * SEC + slack()), &mut || wakes(id) > c) {
            let x = w().ws[slot].as_ref().unwrap();
            extra_tags(u64::MAX, ep_of(x.file).cancels);
            violate(tg("R01,B03"), "WAIT_STUCK", &format!("wait {} does not complete although its file is ready", slot));
        }
        if now() > t0 + 4 * SEC + slack() {
            violate(tg("R01"), "WAIT_STUCK", &format!("wait {} keeps being woken without completing", slot));
        }
    }
}
fn epilogue(p: &Prog, helper_h: std::thread::JoinHandle<()>) {
    log(|| "epilogue".to_string());
    faults_off();
    // Deferred expectations of runs with failing system calls.
    for (t, props, class, done) in std::mem::take(&mut w().deferred) {
        expect_by(t.max(now()) + w().bound, slack(), props, class, done);
    }
    let bound = w().bound;
    // Let every near deadline pass.
    let horizon = now() as i128 + 30 * SEC as i128;
    let last = w()
        .ts
        .iter()
        .filter_map(|s| if s.att.is_some() { s.sched.as_ref().map(|x| x.hi) } else { None })
        .filter(|x| *x < horizon)
        .max()
        .unwrap_or(0);
    let until = (last.max(now() as i128) as u64) + 2 * bound;
    sleep_until(until);
    sleep(2 * bound);
    // Nothing is due any more: everybody sleeps.
    if p.cfg.get("quiet", 1) != 0 {
        sleep(2 * SEC);
        quiet(7 * 24 * 3600 * SEC);
    }
    // Far timers are served too, and not before their time.
    if p.cfg.get("long", 0) != 0 {
        for _ in 0..p.cfg.get("long", 0) {
            let nd = next_due();
            if nd > 8_000_000_000 * SEC {
                break;
            }
            let (n, to) = (now(), nd + 2 * bound);
            // Somewhere in between, and once it is due.
            for t in [n + (to - n) / 3, to] {
                sleep_until(t);
                for i in 0..NT {
                    if w().ts[i].att.is_some() {
                        t_poll_op(i, 1, 0, false);
                    }
                }
            }
            sleep(2 * SEC);
            quiet(400 * 24 * 3600 * SEC);
        }
    }
    w().ending = true;
    for id in std::mem::take(&mut w().res_wids) {
        let wk = w().ww[id].h.as_ref().map(|h| h.clone());
        if let Some(wk) = wk {
            wk.wake();
        }
    }
    for h in std::mem::take(&mut w().residents) {
        let _ = h.join();
    }
    // Every wait completes once its device is ready.
    for i in 0..NW {
        if w().ws[i].is_none() {
            continue;
        }
        let (file, dir) = {
            let x = w().ws[i].as_ref().unwrap();
            (x.file, x.dir)
        };
        if !vfs::dev_ready(file, dir) {
            d_set(file, dir, 1_000);
        }
    }
    sleep(2 * bound);
    for i in 0..NW {
        if w().ws[i].is_some() {
            let (file, dir) = {
                let x = w().ws[i].as_ref().unwrap();
                (x.file, x.dir)
            };
            if !vfs::dev_ready(file, dir) {
                d_set(file, dir, 1_000);
            }
            pump_wait(i);
        }
    }
    // Drop everything; no waker may stay behind once later timers are served.
    for i in 0..NT {
        t_drop(i);
    }
    t_clear();
    w_clear(true);
    for i in 0..ND {
        d_drop(i);
    }
    for _ in 0..2 {
        t_new(0, 0, MS, 0);
        t_poll_op(0, 1, 0, false);
        let id = w().ts[0].last.unwrap();
        // This thread may have been delayed until the timer was due.
        let pending = w().ts[0].sched.is_some();
        if pending && !wait_cond(Some(now() + 2 * SEC), &mut || wakes(id) > 0) {
            violate(tg("T02,B03"), "TIMER_NOT_WOKEN", "a timer created at the end of the run was not served");
        }
        t_drop(0);
    }
    sleep(bound);
    // One more, so that the removal of the last is processed too.
    t_new(1, 0, MS, 0);
    t_poll_op(1, 1, 0, false);
    sleep(2 * bound);
    for id in 0..w().ww.len() {
        let mine = w().ww[id].h.is_some() as i64;
        if refs(id) > mine && Some(id) != w().ts[1].last {
            let kind = w().ww[id].kind;
            let props = match kind {
                WK::Timer if w().ww[id].reset => "T04,T05",
                WK::Timer => "T05",
                WK::Wait => "R03",
                _ => "T05,R03",
            };
            violate(&tgx(props), "WAKER_LEAK", &format!("at the end of the run waker w{} is still referenced {} times by the runtime", id, refs(id) - mine));
        }
    }
    let open = k().vfs.open_user_fds();
    if !open.is_empty() {
        violate(&tgx("H01,H02"), "FD_LEAK", &format!("descriptors {:?} are still open although every handle is gone", open));
    }
    check_rfd();
    // Threads that are not the harness's have no name here.
    let few = p.cfg.get("scarce", 0) != 0;
    let own = k().ths.iter().filter(|t| t.name == "thread" && !(few && t.st == simk::kern::St::Done)).count();
    if own > 1 {
        violate("N01", "RUNTIMES", &format!("{} threads were started to drive the reactor", own));
    }
    let few = p.cfg.get("scarce", 0) != 0;
    let eps = if few { k().vfs.open_epolls() } else { k().vfs.epolls as usize };
    if eps != 1 {
        violate("N01", "RUNTIMES", &format!("{} epoll instances were created", eps));
    }
    w().stop = true;
    signal();
    let _ = helper_h.join();
}
