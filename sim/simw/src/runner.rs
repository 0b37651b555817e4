//! Running programs in child processes, searching over seeds, minimising, replaying.
use crate::prog::*;
use simk::rng::mix;
use simk::shm::*;
use simk::{Dec, Rng};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub fn shared<T>(n: usize) -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            n * std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Out {
    pub bad: bool,
    pub props: String,
    pub class: String,
    pub msg: String,
}

pub fn set_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        if m.contains("SIMPANIC") {
            return;
        }
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if simk::kern::in_sim() {
            if simk::k().forgive && !m.contains("HARNESS") && !loc.contains("simw/src") && !loc.contains("simk/src") {
                simk::api::log(|| format!("panic at {}: {}", loc, m));
                return;
            }
            // A failed assertion of the harness itself is not a verdict.
            let (props, class) = if m.contains("HARNESS") || loc.contains("simw/src") || loc.contains("simk/src") || loc.contains("simg/src") {
                ("*", "HARNESS")
            } else {
                ("*", "PANIC")
            };
            simk::k().fail(props, class, &format!("panic at {}: {}", loc, m));
        }
        eprintln!("panic outside the simulation at {}: {}", loc, m);
        unsafe { libc::_exit(12) };
    }));
}

/// Run a program in a child process.
pub fn run_one(prog: &Prog, shm: *mut Shm, replay: Option<&[Dec]>, trace: bool) -> Out {
    let mut tries = 0;
    loop {
        tries += 1;
        let limit = if tries == 1 { 30 } else { 120 };
        unsafe {
            (*shm).reset();
            let pid = libc::fork();
            if pid == 0 {
                libc::alarm(limit);
                // Only one thread runs at a time: handing over on one processor is far cheaper.
                if tries == 1 && std::env::var_os("SIM_NOPIN").is_none() {
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(libc::sched_getcpu().max(0) as usize, &mut set);
                    libc::sched_setaffinity(0, std::mem::size_of_val(&set), &set);
                }
                set_panic_hook();
                simk::start(&prog.cfg, shm, replay.map(|r| r.to_vec()), trace);
                crate::run_family(prog);
                simk::api::finish();
            }
            assert!(pid > 0, "fork failed");
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            let code = libc::WEXITSTATUS(st);
            let exited = libc::WIFEXITED(st);
            let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
            let s = &*shm;
            if exited && code == 0 && s.status == 1 {
                return Out { bad: false, props: String::new(), class: String::new(), msg: String::new() };
            }
            if exited && code == 10 && s.status == 2 {
                let (props, class, msg) = s.violation();
                return Out { bad: true, props, class, msg };
            }
            if sig == libc::SIGALRM {
                if tries == 1 {
                    continue;
                }
                return Out { bad: true, props: "*".into(), class: "LIVELOCK".into(), msg: "the run made no progress within the wall-clock limit".into() };
            }
            if sig == libc::SIGKILL {
                return Out { bad: true, props: "*".into(), class: "HARNESS".into(), msg: "the run was killed from outside".into() };
            }
            if exited && code == 12 {
                return Out { bad: true, props: "*".into(), class: "HARNESS".into(), msg: "panic outside the simulation".into() };
            }
            return Out { bad: true, props: "*".into(), class: "CRASH".into(), msg: format!("the process died: exit code {} signal {}", if exited { code } else { -1 }, sig) };
        }
    }
}

#[repr(C)]
pub struct Rec {
    pub state: u32, // 0 not run, 1 ok, 2 bad
    pub fam: u32,
    pub seed: u64,
    pub hash: u64,
    pub ophash: u64,
    pub points: u64,
    pub switches: u64,
    pub events: u64,
    pub syscalls: u64,
    pub simns: u64,
    pub obligations: u64,
    pub threads: u64,
    pub ndec: u64,
    pub faults: [u32; NFAULT],
    pub probes: [u64; NPROBE],
    pub props: [u8; 64],
    pub class: [u8; 64],
    pub msg: [u8; 400],
}
fn put(d: &mut [u8], s: &str) {
    let n = s.len().min(d.len() - 1);
    d[..n].copy_from_slice(&s.as_bytes()[..n]);
    d[n] = 0;
}
pub fn get(s: &[u8]) -> String {
    let n = s.iter().position(|b| *b == 0).unwrap_or(s.len());
    String::from_utf8_lossy(&s[..n]).into_owned()
}
pub fn matches(props: &str, want: &str) -> bool {
    want.is_empty() || props.split(',').any(|p| p == want || p == "*")
}
pub struct Ctl {
    pub next: AtomicU64,
    pub stop: AtomicU32,
}
pub struct Batch {
    pub recs: Vec<&'static Rec>,
    pub cov: Vec<u8>,
    pub wall: f64,
    pub truncated: bool,
}
pub fn run_seed(family: &str, seed: u64) -> Prog {
    crate::gen::gen(family, seed)
}
pub fn seed_of(base: u64, fam: &str, i: u64) -> u64 {
    let mut h = mix(base.wrapping_mul(0x9E37_79B9), 0xABCD);
    for b in fam.bytes() {
        h = mix(h, b as u64);
    }
    mix(h, i) >> 1
}
/// plan: (family, number of seeds), interleaved.
pub fn batch(plan: &[(String, u64)], base: u64, workers: usize, cap_s: f64, want: &str, stop_on_bad: bool) -> Batch {
    // Interleave the families so that every prefix covers all of them.
    let total: u64 = plan.iter().map(|p| p.1).sum();
    let mut jobs: Vec<(usize, u64)> = vec![];
    for (fi, p) in plan.iter().enumerate() {
        for i in 0..p.1 {
            jobs.push((fi, seed_of(base, &p.0, i)));
        }
    }
    let mut order: Vec<usize> = (0..jobs.len()).collect();
    let mut pos = vec![];
    {
        let mut idx = 0;
        for p in plan {
            for i in 0..p.1 {
                pos.push(((i as f64 + 0.5) / p.1 as f64, idx));
                idx += 1;
            }
        }
        pos.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for (i, p) in pos.iter().enumerate() {
            order[i] = p.1;
        }
    }
    let recs: *mut Rec = shared(total.max(1) as usize);
    let ctl: *mut Ctl = shared(1);
    let covs: *mut u8 = shared(workers * NCOV);
    let t0 = Instant::now();
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let shm: *mut Shm = shared(1);
            let ctl = unsafe { &*ctl };
            loop {
                if ctl.stop.load(SeqCst) != 0 || t0.elapsed().as_secs_f64() > cap_s {
                    break;
                }
                let n = ctl.next.fetch_add(1, SeqCst);
                if n >= total {
                    break;
                }
                let (fi, seed) = jobs[order[n as usize]];
                let prog = run_seed(&plan[fi].0, seed);
                let o = run_one(&prog, shm, None, false);
                let r = unsafe { &mut *recs.add(n as usize) };
                let s = unsafe { &*shm };
                r.fam = fi as u32;
                r.seed = seed;
                r.hash = s.hash;
                r.ophash = s.ophash;
                r.points = s.points;
                r.switches = s.switches;
                r.events = s.events;
                r.syscalls = s.syscalls;
                r.simns = s.now.saturating_sub(1_000_000_000_000 + prog.cfg.get("t0", 0));
                r.obligations = s.obligations;
                r.threads = s.threads;
                r.ndec = s.ndec;
                for i in 0..NFAULT {
                    r.faults[i] = s.faults[i] as u32;
                }
                r.probes = s.probes;
                if o.bad {
                    put(&mut r.props, &o.props);
                    put(&mut r.class, &o.class);
                    put(&mut r.msg, &o.msg);
                }
                std::sync::atomic::fence(SeqCst);
                r.state = if o.bad { 2 } else { 1 };
                if o.bad && stop_on_bad && matches(&o.props, want) {
                    ctl.stop.store(1, SeqCst);
                }
            }
            unsafe {
                std::ptr::copy_nonoverlapping((*shm).cov.as_ptr(), covs.add(w * NCOV), NCOV);
                libc::_exit(0)
            };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} };
        if st != 0 {
            eprintln!("worker died with status {:x}", st);
            std::process::exit(3);
        }
    }
    let mut cov = vec![0u8; NCOV];
    for w in 0..workers {
        for i in 0..NCOV {
            cov[i] |= unsafe { *covs.add(w * NCOV + i) };
        }
    }
    let all: Vec<&'static Rec> = (0..total as usize).map(|i| unsafe { &*recs.add(i) }).filter(|r| r.state != 0).collect();
    let truncated = (all.len() as u64) < total && unsafe { (*ctl).stop.load(SeqCst) } == 0;
    Batch { recs: all, cov, wall: t0.elapsed().as_secs_f64(), truncated }
}

// ---------------------------------------------------------------- minimising
pub struct Min {
    pub prog: Prog,
    pub decs: Vec<Dec>,
    pub out: Out,
    pub tests: u64,
}
fn same(o: &Out, class: &str, want: &str) -> bool {
    o.bad && o.class == class && matches(&o.props, want)
}
/// Find a small program and decision list with the same class of violation of the wanted property.
pub fn minimise(prog: &Prog, want: &str, class: &str, budget_s: f64) -> Option<Min> {
    let shm: *mut Shm = shared(1);
    let t0 = Instant::now();
    let left = || t0.elapsed().as_secs_f64() < budget_s;
    let mut tests = 0u64;
    let o = run_one(prog, shm, None, false);
    tests += 1;
    if !same(&o, class, want) {
        return None;
    }
    let mut cur = prog.clone();
    let mut decs = unsafe { (*shm).decs() };
    let mut out = o;
    // The recorded decisions must reproduce it.
    let o = run_one(&cur, shm, Some(&decs), false);
    if !same(&o, class, want) {
        eprintln!("warning: the recorded decisions give {:?} instead of {:?}", o, out);
        return None;
    }
    let mut attempt = |p: &Prog, d: &[Dec], research: u64, tests: &mut u64| -> Option<(Prog, Vec<Dec>, Out)> {
        *tests += 1;
        let o = run_one(p, shm, Some(d), false);
        if same(&o, class, want) {
            return Some((p.clone(), unsafe { (*shm).decs() }, o));
        }
        for i in 0..research {
            let mut q = p.clone();
            if i > 0 {
                q.cfg.set("seed", mix(p.cfg.get("seed", 0), i) >> 1);
            }
            *tests += 1;
            let o = run_one(&q, shm, None, false);
            if same(&o, class, want) {
                let d = unsafe { (*shm).decs() };
                let o2 = run_one(&q, shm, Some(&d), false);
                if same(&o2, class, want) {
                    return Some((q, d, o2));
                }
            }
        }
        None
    };
    // No decisions at all?
    if let Some((p, d, o)) = attempt(&cur, &[], 0, &mut tests) {
        cur = p;
        decs = d;
        out = o;
    }
    // Operations.
    let mut chunk = (cur.ops.len() / 2).max(1);
    while left() && !cur.ops.is_empty() {
        let mut i = 0;
        let mut changed = false;
        while i < cur.ops.len() && left() {
            let mut p = cur.clone();
            let e = (i + chunk).min(p.ops.len());
            p.ops.drain(i..e);
            if let Some((p, d, o)) = attempt(&p, &decs, if chunk > 2 { 4 } else { 10 }, &mut tests) {
                cur = p;
                decs = d;
                out = o;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !changed {
            break;
        }
        if chunk > 1 {
            chunk /= 2;
        }
    }
    // Faults switched off one by one.
    for k in cur.cfg.kv.keys().cloned().collect::<Vec<_>>() {
        if !left() {
            break;
        }
        if (k.starts_with("f.") || k.ends_with("_ppm")) && cur.cfg.get(&k, 0) != 0 {
            let mut p = cur.clone();
            p.cfg.kv.remove(&k);
            if let Some((p, d, o)) = attempt(&p, &decs, 0, &mut tests) {
                cur = p;
                decs = d;
                out = o;
            }
        }
    }
    // Decisions.
    let mut chunk = (decs.len() / 2).max(1);
    while left() && !decs.is_empty() {
        let mut i = 0;
        let mut changed = false;
        while i < decs.len() && left() {
            let mut d = decs.clone();
            let e = (i + chunk).min(d.len());
            d.drain(i..e);
            tests += 1;
            let o = run_one(&cur, shm, Some(&d), false);
            if same(&o, class, want) {
                decs = d;
                out = o;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !changed {
            break;
        }
        if chunk > 1 {
            chunk /= 2;
        }
    }
    // Arguments towards zero.
    for i in 0..cur.ops.len() {
        for j in 0..6 {
            if cur.ops[i].a[j] == 0 {
                continue;
            }
            if !left() {
                break;
            }
            for v in [0, 1] {
                if cur.ops[i].a[j] > v {
                    let mut p = cur.clone();
                    p.ops[i].a[j] = v;
                    tests += 1;
                    let o = run_one(&p, shm, Some(&decs), false);
                    if same(&o, class, want) {
                        cur = p;
                        out = o;
                        break;
                    }
                }
            }
        }
    }
    // Final confirmation (also fixes the message).
    let o = run_one(&cur, shm, Some(&decs), false);
    if same(&o, class, want) {
        out = o;
    }
    Some(Min { prog: cur, decs, out, tests })
}

/// A quick check that runs and replays agree: the hash over all scheduling and fault decisions.
pub fn determinism(family: &str, seed: u64, shm: *mut Shm) -> Result<(), String> {
    let prog = run_seed(family, seed);
    let a = run_one(&prog, shm, None, false);
    let (h1, p1, d1, o1) = unsafe { ((*shm).hash, (*shm).points, (*shm).decs(), (*shm).ophash) };
    let b = run_one(&prog, shm, None, false);
    let (h2, p2, o2) = unsafe { ((*shm).hash, (*shm).points, (*shm).ophash) };
    if (h1, p1, o1) != (h2, p2, o2) || a != b {
        return Err(format!("{} seed {}: two runs differ: {:x}/{} vs {:x}/{} {:?} {:?}", family, seed, h1, p1, h2, p2, a, b));
    }
    if d1.len() < MAXDEC {
        let c = run_one(&prog, shm, Some(&d1), false);
        let (h3, p3, o3) = unsafe { ((*shm).hash, (*shm).points, (*shm).ophash) };
        if (h1, p1, o1) != (h3, p3, o3) || a != c {
            return Err(format!("{} seed {}: the replay differs: {:x}/{} vs {:x}/{} {:?} {:?}", family, seed, h1, p1, h3, p3, a, c));
        }
    }
    Ok(())
}
pub fn rng_for(seed: u64) -> Rng {
    Rng::new(seed, 1)
}
