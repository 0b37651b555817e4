//! Program generators, one per family.
use crate::core::{GRID, MS, SAME, SEC};
use crate::prog::*;
use simk::{f, Cfg, Rng};

pub const FAMILIES: &[&str] = &["tm", "iow", "life", "blk", "wpanic", "reent", "fault", "init", "mix", "idle"];
pub const NET: &[&str] = &["ops", "stream", "dgram", "conn", "acc", "opsf", "streamf", "dgramf", "connf", "accf"];
/// The family that one with refused registrations is derived from.
pub fn base(family: &str) -> &str {
    match NET[5..].contains(&family) {
        true => &family[..family.len() - 1],
        false => family,
    }
}

/// Scheduling and timing noise that is always legal.
pub fn noise(r: &mut Rng, c: &mut Cfg, seed: u64) {
    c.set("seed", seed);
    c.set("t0", r.below(10 * SEC));
    let p = r.below(100);
    if p < 10 {
        c.set("policy", 0);
    } else if p < 45 {
        c.set("policy", 1);
        c.set("gap", r.pick(&[20, 60, 150, 400, 1000, 2000]));
    } else if p < 70 {
        c.set("policy", 2);
        c.set("hot_n", r.pick(&[8, 20, 50, 150, 400]));
        c.set("hot_ppm", r.pick(&[100_000, 400_000, 1_000_000]));
    } else if p < 90 {
        c.set("policy", 3);
        c.set("pct_d", r.range(1, 8));
        c.set("pct_len", r.pick(&[3_000, 10_000, 30_000, 100_000]));
        if r.chance(60) {
            c.set("focus_ppm", r.pick(&[3_000, 20_000, 80_000, 200_000]));
        }
    } else {
        c.set("policy", 4);
        c.set("hot_ppm", r.pick(&[30_000, 150_000, 500_000]));
    }
    c.set("blk_ppm", r.pick(&[0, 200_000, 500_000]));
    c.set("sys_ns", r.pick(&[20, 150, 150, 800]));
    c.set("tick", r.pick(&[0, 1, 2, 5]));
    if r.chance(40) {
        c.fault(f::TIMER_LATE, r.pick(&[50_000, 300_000]));
    }
    if r.chance(25) {
        c.set("stall_ppm", r.pick(&[2_000, 20_000, 100_000]));
        c.set("stall_max", r.pick(&[100_000, 5 * MS, 60 * MS]));
    }
    if r.chance(15) {
        c.set("jump_ppm", r.pick(&[2_000, 20_000]));
        c.set("jump_max", r.pick(&[MS, 40 * MS]));
    }
    if r.chance(30) {
        c.fault(f::FUTEX_SPUR, r.pick(&[20_000, 200_000]));
    }
    c.fault(f::FUTEX_ORDER, 500_000);
    if r.chance(60) {
        c.fault(f::EPOLL_ORDER, 500_000);
    }
    if r.chance(30) {
        c.fault(f::EPOLL_SPUR, r.pick(&[10_000, 100_000]));
    }
    if r.chance(30) {
        c.fault(f::EPOLL_PARTIAL, r.pick(&[50_000, 400_000]));
    }
    if r.chance(30) {
        c.fault(f::EPOLL_EINTR, r.pick(&[10_000, 100_000]));
    }
    if r.chance(15) {
        c.fault(f::NO_TIMERFD, 1_000_000);
    }
    if r.chance(15) {
        c.fault(f::NO_EVENTFD, 1_000_000);
    }
    if r.chance(15) {
        c.fault(f::NO_PWAIT2, 1_000_000);
    }
}

struct G {
    r: Rng,
    p: Prog,
    nth: u64,
}
/// Short durations of very different magnitudes.
fn d(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => r.below(2_000),
        2 => r.below(100_000),
        3 | 4 => r.below(MS),
        5 | 6 | 7 => r.below(8 * MS),
        8 | 9 => r.below(60 * MS),
        10 => r.below(400 * MS),
        _ => r.pick(&[1, 999, 1_000, 50_000, 500_000, MS, 10 * MS]),
    }
}
fn pause(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => 0,
        1 => r.below(5_000),
        2 => r.below(100_000),
        3 | 4 => r.below(3 * MS),
        _ => r.below(30 * MS),
    }
}
/// Offset from now as used by the kinds 1 and 3: sometimes in the past.
fn off(r: &mut Rng) -> u64 {
    if r.chance(25) {
        (-(d(r) as i64)) as u64
    } else {
        d(r)
    }
}
fn far(r: &mut Rng) -> u64 {
    r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, 100 * SEC, 3600 * SEC, 4_000_000_000 * SEC])
}
impl G {
    fn op(&mut self, th: u64, code: &'static str, a: &[u64]) {
        self.p.ops.push(op(th as u32, code, a));
    }
    fn spread(&mut self) -> u64 {
        if self.r.chance(30) {
            0
        } else if self.r.chance(30) {
            self.r.pick(&[50_000, MS, 5 * MS])
        } else {
            self.r.below(3000)
        }
    }
    fn th(&mut self) -> u64 {
        self.r.below(self.nth)
    }
    /// A random timer construction or reset: (kind, x, y).
    fn tspec(&mut self, never: bool, s: u64, slots: u64) -> (u64, u64, u64) {
        let r = &mut self.r;
        if r.chance(8) {
            let o = if r.chance(60) { s } else { r.below(slots) };
            let x = SAME + o * 4 + r.pick(&[0, 1, 1, 1, 1, 2]);
            return if r.chance(60) { (1, x, 0) } else { (3, x, d(r)) };
        }
        match r.below(if never { 20 } else { 18 }) {
            0..=7 => (0, d(r), 0),
            8..=10 => (1, off(r), 0),
            11..=13 => (2, d(r), 0),
            14..=15 => (3, off(r), d(r)),
            16 => (0, far(r), 0),
            17 => (2, far(r), 0),
            _ => (4, 0, 0),
        }
    }
    fn timer_op(&mut self, th: u64, slots: u64) {
        let s = self.r.below(slots);
        match self.r.below(100) {
            0..=24 => {
                let (k, x, y) = self.tspec(true, s, slots);
                let m = self.r.pick(&[0, 1, 1, 1]);
                self.op(th, "tnew", &[s, k, x, y, m]);
            }
            25..=49 => {
                let m = self.r.below(2);
                let st = self.r.below(2);
                self.op(th, "tpoll", &[s, m, 0, st]);
            }
            50..=66 => {
                let (k, x, y) = self.tspec(false, s, slots);
                self.op(th, "tset", &[s, k, x, y]);
            }
            67..=74 => self.op(th, "tdrop", &[s]),
            75..=76 => self.op(th, "twill", &[s]),
            77..=79 => {
                let (k, x, y) = (self.r.pick(&[1, 1, 3]), self.r.pick(&[50_000, 300_000, 3 * MS]), self.r.pick(&[40_000, 700_000]));
                let code = self.r.pick(&["tnew", "tset"]);
                self.op(th, code, &[s, k, x, y, 1]);
                for _ in 0..self.r.range(1, 4) {
                    let (m, o, st) = (self.r.below(2), self.r.pick(&[0, 1, 1, 2]), self.r.below(2));
                    self.op(th, "texact", &[s, m, o, st]);
                }
            }
            80..=81 => {
                let n = self.r.pick(&[3, 10, 40]);
                let (x, sp, k) = (d(&mut self.r), self.spread(), self.r.pick(&[100, 50, 5, 1100, 1050]));
                self.op(th, "tburst", &[n, x, sp, k]);
            }
            _ => {
                let x = pause(&mut self.r);
                self.op(th, "sleep", &[x]);
            }
        }
    }
    fn dev_op(&mut self, th: u64, devs: u64, waits: u64, life: bool) {
        let dv = self.r.below(devs);
        let ws = self.r.below(waits);
        let z = self.r.below(100);
        match z {
            0..=21 => {
                let kind = self.wkind();
                self.op(th, "wait", &[ws, dv, kind, 1]);
            }
            22..=39 => {
                let m = self.r.below(2);
                self.op(th, "wpoll", &[ws, m]);
            }
            40..=59 => {
                let (dir, n) = (self.r.below(2), self.r.pick(&[0, 0, 1, 1, 2, 3]));
                self.op(th, "dset", &[dv, dir, n]);
            }
            60..=66 => {
                let (dir, n, t) = (self.r.below(2), self.r.pick(&[0, 1, 2]), d(&mut self.r));
                self.op(th, "dsetat", &[dv, dir, n, t]);
            }
            67..=76 => self.op(th, "wcancel", &[ws]),
            77..=78 => {
                let e = self.r.below(2);
                self.op(th, "dhup", &[dv, e]);
            }
            79..=89 => {
                let x = pause(&mut self.r);
                self.op(th, "sleep", &[x]);
            }
            _ if life => match self.r.below(6) {
                0 | 1 => self.op(th, "ddrop", &[dv]),
                2 => {
                    let h = self.r.below(2);
                    self.op(th, "dunwrap", &[dv, h]);
                }
                3 => {
                    let n = self.r.below(2);
                    self.op(th, "ddup", &[dv, n]);
                }
                _ => {
                    let (h, fl) = (self.r.below(3), if self.r.chance(15) { self.r.below(4) } else { 0 });
                    self.op(th, "dnew", &[dv, h, fl]);
                }
            },
            _ => {
                let x = self.r.below(1500);
                self.op(th, "spin", &[x]);
            }
        }
    }
    /// Threads that create, wait, give up and drop, one handle after another, while the dropped ones become ready.
    fn recycle(&mut self) {
        if self.r.chance(60) {
            let nth = self.r.range(2, 4);
            self.nth = nth;
            self.p.cfg.set("threads", nth);
        }
        if self.r.chance(40) {
            self.p.cfg.set("stall_ppm", self.r.pick(&[20_000, 100_000]));
            self.p.cfg.set("stall_max", self.r.pick(&[20_000, 100_000, MS]));
        }
        let align = self.nth > 1 && self.r.chance(70);
        if align && self.r.chance(60) {
            self.p.cfg.set("policy", 3);
            self.p.cfg.set("pct_d", self.r.range(1, 3));
            self.p.cfg.set("pct_len", 30_000);
            self.p.cfg.set("focus_ppm", self.r.pick(&[80_000, 200_000]));
        }
        let dir = self.r.below(2);
        for th in 0..self.nth {
            for _ in 0..self.r.range(3, 16) {
                let h = self.r.below(3);
                if align {
                    // Half of the threads drop while the others create.
                    self.op(th, "align", &[200_000]);
                    if th & 1 == 0 {
                        self.op(th, "ddrop", &[th]);
                    }
                }
                self.op(th, "dnew", &[th, h, 0]);
                let mut kind = self.r.below(6);
                if align && self.r.chance(80) {
                    kind = kind & !1 | dir;
                }
                self.op(th, "wait", &[th, th, kind, 1]);
                let stay = self.r.chance(if align { 80 } else { 40 });
                if align && th & 1 == 1 && self.r.chance(70) {
                    // The handles the others are dropping become ready, after the reactor has looked again.
                    if self.r.chance(60) {
                        let x = self.r.pick(&[3_000, 10_000, 1_000_000]);
                        self.op(th, "tnew", &[th, 0, x, 0, 1]);
                        let x = self.r.pick(&[100, 1_000, 4_000]);
                        self.op(th, "sleep", &[x]);
                    }
                    for other in (0..self.nth).step_by(2) {
                        self.op(th, "dsetold", &[other, kind & 1, 1]);
                    }
                } else if self.r.chance(60) {
                    let x = self.r.pick(&[0, 2_000, 10_000, 40_000]);
                    let x = self.r.below(x + 1);
                    self.op(th, "dsetat", &[th, kind & 1, 1, x]);
                }
                if stay {
                    let x = self.r.pick(&[1_000, 20_000, 200_000]);
                    let x = self.r.below(x);
                    self.op(th, "sleep", &[x]);
                    self.op(th, "wpoll", &[th, 0]);
                }
                self.op(th, "wcancel", &[th]);
                let how = self.r.below(8);
                if align && th & 1 == 0 {
                    // Ready just when it is dropped.
                    let x = self.r.below(20_000);
                    self.op(th, "dsetat", &[th, kind & 1, 1, 170_000 + 3 * x]);
                } else if how == 0 {
                    self.op(th, "dunwrap", &[th, 0]);
                } else {
                    self.op(th, "ddrop", &[th]);
                }
            }
        }
    }
    /// Threads that do one or two things at the same moment, again and again, with time to see what came of it.
    fn race(&mut self, life: bool, reent: bool) {
        let nth = self.r.range(2, 4);
        self.nth = nth;
        self.p.cfg.set("threads", nth);
        if self.r.chance(50) {
            self.p.cfg.set("policy", 2);
            self.p.cfg.set("hot_n", self.r.pick(&[50, 150, 400]));
            self.p.cfg.set("hot_ppm", self.r.pick(&[100_000, 400_000, 1_000_000]));
        } else if self.r.chance(50) {
            self.p.cfg.set("policy", 1);
            self.p.cfg.set("gap", self.r.pick(&[10, 20, 60]));
        }
        if self.r.chance(if life { 60 } else { 25 }) {
            self.p.cfg.set("stall_ppm", 20_000);
            self.p.cfg.set("stall_max", self.r.pick(&[20_000, 100_000, 2 * MS]));
        }
        let shared = self.r.range(1, 2);
        self.devs(shared);
        if self.r.chance(25) {
            self.op(0, "resident", &[9, SEC, 0]);
        }
        let q = self.r.pick(&[120 * MS, 160 * MS, 250 * MS]);
        let two = self.r.chance(70);
        for _ in 0..self.r.pick(&[4, 8, 14]) {
            // At most one direction becomes ready, and stays.
            let up = self.r.below(3);
            for th in 0..nth {
                self.op(th, "align", &[q]);
                if self.r.chance(30) {
                    let x = self.r.below(300);
                    self.op(th, "spin", &[x]);
                }
                for _ in 0..self.r.range(1, 2) {
                    let s = th * 3 + self.r.below(2);
                    let dv = if life && self.r.chance(50) { 4 + th } else { self.r.below(shared) };
                    let kind = if two && self.r.chance(80) { self.r.pick(&[0, 2, 4]) + th % 2 } else { self.wkind() };
                    let (m, arg) = if reent && self.r.chance(70) { (self.r.range(3, 4), self.r.below(16) + 16 * self.r.below(5)) } else { (1, 0) };
                    let y = self.r.below(2);
                    match self.r.below(if life { 16 } else { 11 }) {
                        0..=5 => self.op(th, "wait", &[s, dv, kind, m, arg]),
                        6..=7 => self.op(th, "wcancel", &[s]),
                        8..=9 => self.op(th, "wpoll", &[s, m * y, arg]),
                        10 => {
                            let x = self.r.below(20_000);
                            self.op(th, "dsetat", &[dv, up & 1, 1, x]);
                        }
                        11..=12 => {
                            let x = self.r.pick(&[0, 0, 3_000, 30_000]);
                            self.op(th, "dsetat", &[4 + th, y, 1, x]);
                            self.op(th, "ddrop", &[4 + th]);
                        }
                        13 => self.op(th, "dunwrap", &[4 + th, 0]),
                        _ => {
                            self.op(th, "dnew", &[4 + th, y, 0]);
                            self.op(th, "wait", &[s, 4 + th, kind, m, arg]);
                        }
                    }
                }
                if th == 0 && up < 2 {
                    let x = self.r.pick(&[0, 2_000, 30_000, MS, 10 * MS]);
                    for dv in 0..shared {
                        self.op(0, "dsetat", &[dv, up, 2, x]);
                    }
                }
            }
            for th in 0..nth {
                self.op(th, "align", &[q]);
            }
            for dv in 0..shared {
                self.op(0, "dset", &[dv, 0, 0]);
                self.op(0, "dset", &[dv, 1, 0]);
            }
        }
    }
    fn wkind(&mut self) -> u64 {
        self.r.pick(&[0, 0, 1, 1, 2, 3, 4, 4, 5, 5, 6, 7])
    }
    fn devs(&mut self, n: u64) {
        for i in 0..n {
            let h = self.r.below(3);
            self.op(0, "dnew", &[i, h, 0]);
        }
    }
    /// Many handles that become ready together, while the reactor may be busy.
    fn wburst(&mut self, th: u64) {
        let n = self.r.pick(&[10, 50, 100, 100, 300, 1100]);
        if n > 800 {
            self.p.cfg.set("fd_limit", 2500);
        }
        let (dir, t, sp) = (self.r.below(3), d(&mut self.r), self.r.pick(&[0, 0, 10, 2000]));
        if self.r.chance(50) {
            // Somebody's future keeps the thread that serves the reactor busy.
            let oth = self.th();
            let (x, y) = (t.saturating_sub(MS), t.min(20 * MS) + 2 * MS);
            self.op(oth, "block", &[10, 0, 1, x, y, 0]);
        }
        self.op(th, "wburst", &[n, dir, t, sp]);
    }
    /// Threads that wake each other in turn, from within the polls of their futures.
    fn relay(&mut self) {
        let rounds = self.r.pick(&[2, 5, 10, 30]);
        let tokens = self.r.pick(&[1, 1, 1, 2]);
        for th in 0..self.nth {
            let dl = self.r.pick(&[0, 0, 0, 1_000, 30_000, 400_000, MS]);
            let code = if self.r.chance(85) { "block" } else { "exec" };
            let pre = self.r.below(3);
            for _ in 0..pre {
                let x = pause(&mut self.r);
                self.op(th, "sleep", &[x]);
            }
            self.op(th, code, &[13, th, (th + 1) % self.nth, rounds, dl, th]);
            if self.r.chance(30) {
                let (b, c, e) = (self.r.below(3), self.r.below(2), self.r.below(4));
                self.op(th, "block", &[4, b, 0, e, c, 0]);
            }
        }
        for i in 0..tokens {
            let (g, x) = (self.r.below(self.nth), self.r.pick(&[0, 1_000, 100_000, 2 * MS]));
            self.op(i, "openat", &[g, x]);
            // The threads run their operations in order: the opening comes first.
            let o = self.p.ops.pop().unwrap();
            self.p.ops.insert(0, o);
        }
    }
    /// block_on / executor calls of every kind.
    fn call_op(&mut self, th: u64, slots: u64, devs: u64, panics: bool) {
        let code = if self.r.chance(80) { "block" } else { "exec" };
        let r = &mut self.r;
        let k = if panics { r.pick(&[0, 1, 1, 3, 4, 5, 6, 7, 7, 7]) } else { r.pick(&[0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 6, 8, 9, 1, 0, 3, 4, 10, 11]) };
        let a: [u64; 6] = match k {
            0 => [k, r.below(slots), r.range(1, 3), r.below(2), 0, 0],
            1 => [k, r.below(slots), d(r), 0, 0, 0],
            2 => [k, r.below(16), r.below(devs), r.below(8), 0, 0],
            3 => [k, r.below(3), 0, 0, 0, 0],
            4 => [k, r.below(5), if r.chance(20) { r.below(MS) } else { 0 }, r.below(4), 0, 0],
            5 => [k, r.below(3), r.below(2), 0, 0, 0],
            6 => {
                let inner = r.below(6);
                [k, inner, r.below(4), if inner == 1 { d(r) } else { r.below(4) }, r.below(4), r.below(3)]
            }
            7 => [k, r.below(3), r.below(2), 0, 0, 0],
            8 => [k, r.below(slots), r.below(200), d(r), r.below(3 * MS), 0],
            9 => [k, r.below(16), r.below(devs), r.below(8), r.below(slots), d(r)],
            10 => [k, r.below(slots), r.pick(&[3, 20, 60]), r.pick(&[50_000, 400_000, 2 * MS]), r.pick(&[0, MS, 20 * MS, 300 * MS]), r.below(5 * MS)],
            _ => [k, r.below(slots), r.below(3), r.pick(&[20_000, 200_000, MS]), r.range(1, 12), 0],
        };
        if k == 11 {
            let (g, n) = (a[2], a[4]);
            let gap = self.r.pick(&[1_000, 30_000, 300_000, MS]);
            self.op(th, "opens", &[g, n, gap, d(&mut self.r.clone())]);
            self.r.u64();
        }
        if k == 3 {
            let (g, t) = (a[1], d(&mut self.r));
            self.op(th, "openat", &[g, t]);
        }
        self.op(th, code, &a);
    }
}

pub fn gen(family: &str, seed: u64) -> Prog {
    let mut r = Rng::new(seed, 0x5eed);
    let mut c = Cfg::default();
    noise(&mut r, &mut c, seed);
    if NET.contains(&family) {
        return crate::net::gen(family, r, c);
    }
    let nth = match family {
        "blk" => r.range(1, 4),
        "init" => r.range(2, 4),
        _ => r.range(1, 3),
    };
    c.set("threads", nth);
    if r.chance(30) {
        c.set("keepdone", 1);
    }
    let mut g = G { r, p: Prog { family: family.to_string(), cfg: c, ops: vec![] }, nth };
    let n = g.r.pick(&[6, 15, 30, 50]);
    match family {
        "tm" if g.r.chance(3) => {
            let slots = g.r.range(1, 5);
            // Nobody else runs meanwhile: everything is still queued when it is over.
            g.p.cfg.set("policy", 0);
            g.p.cfg.set("blk_ppm", 0);
            if g.r.chance(50) {
                g.p.cfg.set("stall_ppm", 0);
            }
            for _ in 0..g.r.below(3) {
                g.timer_op(0, slots);
            }
            if g.r.chance(60) {
                // The reactor wakes up for a device rather than for the timers.
                g.devs(1);
                g.op(0, "wait", &[0, 0, 0, 1]);
                g.op(0, "sleep", &[MS]);
                g.op(0, "dset", &[0, 0, 1]);
            }
            let n = if g.r.chance(70) { g.r.range(505, 1300) } else { g.r.range(998, 1004) };
            let (x, sp, k) = (d(&mut g.r), g.r.pick(&[100_000, MS, 2 * MS, 5 * MS]), g.r.pick(&[1100, 1100, 1050, 100]));
            g.op(0, "tburst", &[n, x, sp, k]);
        }
        "tm" if g.r.chance(5) => {
            // Timers of several threads for the same instants.
            let nth = g.r.range(2, 4);
            g.p.cfg.set("threads", nth);
            g.nth = nth;
            let q = g.r.below(4);
            let per = g.r.range(1, 4);
            for th in 0..nth {
                for _ in 0..g.r.range(1, 12) {
                    let s = th * 4 + g.r.below(per);
                    let x = GRID + if g.r.chance(90) { q } else { g.r.below(4) };
                    match g.r.below(20) {
                        0..=9 => g.op(th, "tnew", &[s, 1, x, 0, 1]),
                        10..=12 => g.op(th, "tset", &[s, 1, x, 0]),
                        13 => g.op(th, "tnew", &[s, 3, x, 5 * MS, 1]),
                        14..=15 => g.op(th, "tdrop", &[s]),
                        16..=17 => {
                            let (m, st) = (g.r.below(2), g.r.below(2));
                            g.op(th, "tpoll", &[s, m, 0, st]);
                        }
                        _ => {
                            let x = pause(&mut g.r);
                            g.op(th, "sleep", &[x]);
                        }
                    }
                }
            }
        }
        "tm" => {
            let slots = g.r.range(1, 5);
            if g.r.chance(6) {
                let th = g.th();
                let n = if g.r.chance(50) { g.r.range(505, 740) } else { g.r.range(900, 2200) };
                let (x, sp, k) = (d(&mut g.r), g.spread(), g.r.pick(&[100, 50, 2, 0, 1100, 1050]));
                g.op(th, "tburst", &[n, x, sp, k]);
            }
            for _ in 0..n {
                let th = g.th();
                g.timer_op(th, slots);
                if g.r.chance(6) {
                    let th = g.th();
                    g.call_op(th, slots, 1, false);
                }
            }
        }
        "iow" | "life" if g.r.chance(10) => g.race(family == "life", false),
        "reent" if g.r.chance(10) => {
            g.race(true, true);
            if g.r.chance(60) {
                g.p.cfg.set("defer", 1);
                g.p.cfg.fault(f::CTL_MOD, g.r.pick(&[50_000, 200_000]));
            }
        }
        "iow" | "life" => {
            let devs = g.r.range(1, 3);
            let waits = g.r.range(1, 5);
            if family == "life" && g.r.chance(15) {
                g.recycle();
                return g.p;
            }
            g.devs(devs);
            if g.r.chance(4) {
                g.wburst(0);
            }
            if g.r.chance(4) {
                let (th, k, m) = (g.th(), if family == "iow" { 1 } else { g.r.pick(&[0, 0, 2]) }, g.r.range(800, 1500));
                g.op(th, "pile", &[k, m]);
            }
            for _ in 0..n {
                let th = g.th();
                g.dev_op(th, devs, waits, family == "life");
                if g.r.chance(8) {
                    let th = g.th();
                    g.call_op(th, 3, devs, false);
                }
            }
            if family == "life" && g.r.chance(30) {
                g.p.cfg.fault(f::CTL_ADD, g.r.pick(&[100_000, 500_000]));
            }
            if family == "life" && g.r.chance(20) {
                g.p.cfg.fault(f::FIONBIO, 200_000);
            }
            if g.r.chance(20) {
                g.p.cfg.fault(f::EAGAIN, 200_000);
            }
            if g.r.chance(20) {
                g.p.cfg.fault(f::IO_EINTR, 100_000);
            }
        }
        "blk" if g.nth > 1 && g.r.chance(15) => g.relay(),
        "blk" => {
            let devs = g.r.range(1, 2);
            g.devs(devs);
            for _ in 0..n {
                let th = g.th();
                match g.r.below(10) {
                    0..=4 => g.call_op(th, 4, devs, false),
                    5 => {
                        let x = g.r.below(3);
                        g.op(th, "open", &[x]);
                    }
                    6 => {
                        let (x, y, z) = (g.r.below(20), g.r.below(3), g.r.below(4));
                        g.op(th, "churn", &[x, y, z]);
                    }
                    7 => g.dev_op(th, devs, 4, false),
                    8 => g.timer_op(th, 4),
                    _ => {
                        let x = pause(&mut g.r);
                        g.op(th, "sleep", &[x]);
                    }
                }
            }
        }
        "wpanic" => {
            let devs = g.r.range(1, 2);
            g.devs(devs);
            for _ in 0..n {
                let th = g.th();
                match g.r.below(10) {
                    0 | 1 => {
                        let (s, x) = (g.r.below(5), d(&mut g.r));
                        let m = g.r.pick(&[2, 2, 5]);
                        g.op(th, "tnew", &[s, 0, x, 0, m]);
                    }
                    2 => {
                        let (s, dv, kd) = (g.r.below(5), g.r.below(devs), g.r.below(6));
                        let m = g.r.pick(&[2, 2, 5]);
                        g.op(th, "wait", &[s, dv, kd, m]);
                    }
                    3 | 4 => g.timer_op(th, 5),
                    5 | 6 => g.dev_op(th, devs, 5, false),
                    _ => g.call_op(th, 5, devs, true),
                }
            }
        }
        "reent" => {
            let devs = g.r.range(1, 3);
            g.devs(devs);
            if g.r.chance(5) {
                let th = g.th();
                let n = g.r.range(500, 2200);
                g.op(th, "tburst", &[n, 3600 * SEC, 1000, 100]);
                let (s, x) = (g.r.below(5), d(&mut g.r));
                let m = g.r.range(3, 4);
                g.op(th, "tnew", &[s, 0, x, 0, m, 15]);
            }
            if g.r.chance(4) {
                g.wburst(0);
            }
            for _ in 0..n {
                let th = g.th();
                let arg = g.r.below(16) + 16 * g.r.below(5);
                let m = g.r.range(3, 4);
                match g.r.below(12) {
                    0 | 1 => {
                        let (s, x) = (g.r.below(5), d(&mut g.r));
                        g.op(th, "tnew", &[s, [0, 0, 2][(x % 3) as usize], x, 0, m, arg]);
                    }
                    2 => {
                        let s = g.r.below(5);
                        g.op(th, "tpoll", &[s, m, arg]);
                    }
                    3 | 4 => {
                        let (s, dv, kd) = (g.r.below(5), g.r.below(devs), g.r.below(6));
                        g.op(th, "wait", &[s, dv, kd, m, arg]);
                    }
                    5 | 6 => {
                        let s = g.r.below(5);
                        g.op(th, "wpoll", &[s, m, arg]);
                    }
                    7 | 8 => g.timer_op(th, 5),
                    9 | 10 => g.dev_op(th, devs, 5, true),
                    _ => g.call_op(th, 5, devs, false),
                }
            }
        }
        "fault" if g.r.chance(12) => {
            // Waits that are refused their registration and stay around, others on the same handle that come after them.
            g.p.cfg.set("keepdone", 1);
            g.devs(1);
            let dirs = g.r.below(3);
            let k = |r: &mut Rng| r.pick(&[0, 2, 0, 2, 4]) + if dirs == 2 { r.below(2) } else { dirs };
            let rounds = g.r.pick(&[1, 2, 4]);
            for i in 0..rounds {
                for s in 0..g.r.range(2, 5) {
                    let th = if g.r.chance(80) { 0 } else { g.th() };
                    let x = k(&mut g.r);
                    g.op(th, "wait", &[s, 0, x, 1]);
                    match g.r.below(10) {
                        0 => g.op(th, "wcancel", &[s]),
                        1 => g.op(th, "wpoll", &[s, 1]),
                        2 => {
                            let x = pause(&mut g.r);
                            g.op(th, "sleep", &[x]);
                        }
                        _ => {}
                    }
                }
                for dir in 0..2 {
                    if dirs == 2 || dirs == dir {
                        g.op(0, "dset", &[0, dir, 2]);
                    }
                }
                let x = g.r.pick(&[0, 1000, MS, 200 * MS]);
                g.op(0, "sleep", &[x]);
                if i + 1 == rounds {
                    break;
                }
                for dir in 0..2 {
                    g.op(0, "dset", &[0, dir, 0]);
                }
                for s in 0..5 {
                    if g.r.chance(60) {
                        g.op(0, "wcancel", &[s]);
                    }
                }
            }
            g.p.cfg.fault(f::CTL_MOD, g.r.pick(&[100_000, 300_000, 500_000]));
            if g.r.chance(20) {
                g.p.cfg.fault(f::EPOLL_ERR, 100_000);
            }
        }
        "fault" => {
            let devs = g.r.range(1, 3);
            g.devs(devs);
            for _ in 0..n {
                let th = g.th();
                match g.r.below(10) {
                    0..=2 => g.timer_op(th, 4),
                    3..=7 => g.dev_op(th, devs, 5, true),
                    _ => g.call_op(th, 4, devs, false),
                }
            }
            let c = &mut g.p.cfg;
            if g.r.chance(50) {
                c.fault(f::EPOLL_ERR, g.r.pick(&[10_000, 100_000, 400_000]));
            }
            if g.r.chance(60) {
                c.fault(f::CTL_MOD, g.r.pick(&[30_000, 200_000, 500_000]));
            }
            if g.r.chance(50) {
                c.fault(f::EPOLL_EINTR, g.r.pick(&[50_000, 300_000]));
            }
            if g.r.chance(50) {
                c.fault(f::EPOLL_PARTIAL, g.r.pick(&[200_000, 700_000]));
            }
            if g.r.chance(20) {
                c.fault(f::CTL_DEL, 200_000);
            }
            if g.r.chance(20) {
                c.fault(f::CTL_ADD, 200_000);
            }
            if g.r.chance(5) {
                g.wburst(0);
            }
        }
        "init" => {
            // First uses on every thread at once.
            for th in 0..nth {
                match g.r.below(5) {
                    0 => {
                        let x = d(&mut g.r);
                        g.op(th, "tnew", &[th, 0, x, 0, 1]);
                    }
                    1 => {
                        g.op(th, "dnew", &[th, 0, 0]);
                        g.op(th, "wait", &[th, th, g.nth % 2, 1]);
                        g.op(th, "dset", &[th, g.nth % 2, 1]);
                    }
                    2 => {
                        let x = d(&mut g.r);
                        g.op(th, "block", &[1, th, x, 0, 0, 0]);
                    }
                    3 => g.op(th, "block", &[4, 1, 0, 1, 0, 0]),
                    _ => {
                        g.op(th, "dnew", &[th, 0, 0]);
                        let x = d(&mut g.r);
                        g.op(th, "dsetat", &[th, 0, 1, x]);
                        g.op(th, "block", &[2, th, th, 0, 0, 0]);
                    }
                }
                for _ in 0..g.r.below(3) {
                    g.timer_op(th, 4);
                }
            }
        }
        "idle" => {
            let devs = g.r.range(1, 2);
            g.devs(devs);
            if g.r.chance(50) {
                let n = g.r.range(1, 2);
                for i in 0..n {
                    let th = g.th();
                    let (m, x) = (g.r.below(4), d(&mut g.r));
                    g.op(th, "resident", &[5 + i, x, m]);
                }
                if g.r.chance(30) {
                    // Much to do for others.
                    let th = g.th();
                    let (m, x) = if g.r.chance(40) { (g.r.range(200, 400), g.r.range(260_000, 450_000)) } else { (g.r.range(25, 60), g.r.range(2 * MS, 9 * MS)) };
                    g.op(th, "tburst", &[m, 20 * MS, x, 100]);
                }
            }
            for _ in 0..g.r.range(2, 12) {
                let th = g.th();
                match g.r.below(10) {
                    0..=2 => g.timer_op(th, 3),
                    3..=6 => g.dev_op(th, devs, 4, true),
                    7 => {
                        let (gt, t) = (g.r.below(3), g.r.pick(&[50 * MS, 2 * SEC]));
                        g.op(th, "openat", &[gt, t]);
                        g.op(th, "block", &[3, gt]);
                    }
                    8 => {
                        let (s, x) = (g.r.below(4), far(&mut g.r));
                        g.op(th, "tnew", &[s, 0, x, 0, 1]);
                    }
                    _ => g.call_op(th, 4, devs, false),
                }
            }
        }
        _ => {
            let devs = g.r.range(1, 3);
            g.devs(devs);
            for _ in 0..n {
                let th = g.th();
                match g.r.below(10) {
                    0..=3 => g.timer_op(th, 5),
                    4..=7 => g.dev_op(th, devs, 6, true),
                    _ => g.call_op(th, 5, devs, false),
                }
            }
        }
    }
    if ["tm", "idle", "mix", "iow", "blk"].contains(&family) && g.r.chance(25) {
        let n = g.r.range(1, 4);
        g.p.cfg.set("long", n);
    }
    // Without timerfd, the polling crate cannot wait longer than 2^31 ms and rejects such a wait (outside this repository).
    let rfd = match family {
        "init" => 60,
        "life" | "mix" => 25,
        "blk" | "fault" => 10,
        _ => 0,
    };
    while rfd > 0 && g.r.chance(rfd) {
        // The descriptor of the reactor, also before anything else.
        let th = g.th();
        let at = if family == "init" && g.r.chance(60) { 0 } else { g.r.below(g.p.ops.len() as u64 + 1) as usize };
        g.op(th, "rfd", &[]);
        let o = g.p.ops.pop().unwrap();
        g.p.ops.insert(at, o);
    }
    if family == "init" && g.r.chance(25) {
        // The very first uses find no descriptors or no threads left.
        let how = match g.r.below(4) {
            0 => 8,
            1 => g.r.range(1, 3) + 8,
            _ => g.r.range(1, 3),
        };
        g.p.cfg.set("scarce", how);
        for t in 6..6 + g.r.range(1, 3) {
            for _ in 0..g.r.range(1, 3) {
                let k = g.r.below(5);
                g.op(t, "early", &[k]);
            }
        }
    }
    if g.p.ops.iter().any(|o| o.a.iter().any(|x| *x > 1_000_000 * SEC && *x < (1 << 63)) || o.a.contains(&u64::MAX) || o.a.contains(&(u64::MAX - 1))) {
        g.p.cfg.kv.remove(&format!("f.{}", f::NAMES[f::NO_TIMERFD]));
        // (Nor must the timerfd be what cannot be had.)
        if g.p.cfg.get("scarce", 0) & 7 != 0 {
            g.p.cfg.set("scarce", 8);
        }
    }
    g.p
}
