//! Deterministic simulation of async-io: search, replay, minimise, report.
mod check;
mod core;
mod gen;
mod count;
#[cfg(feature = "guard")]
mod guard;
mod net;
mod prog;
mod runner;

use prog::*;
use runner::*;
use simk::shm::*;

/// Names of the probes, by number.
pub const PROBES: &[&str] = &["quiet_window_checked", "action_run_inside_a_waker", "timer_reset_while_polled_for", "handle_creation_failed", "timer_polled_at_its_instant"];

pub fn all_codes() -> &'static [&'static str] {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<&'static str>> = OnceLock::new();
    C.get_or_init(|| core::CODES.iter().chain(net::CODES).copied().collect())
}
pub fn run_family(p: &Prog) {
    if gen::NET.contains(&p.family.as_str()) {
        net::run(p)
    } else {
        core::run(p)
    }
}

fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p != -1 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_NOASLR").is_none() {
            libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong);
            std::env::set_var("SIM_NOASLR", "1");
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
            eprintln!("cannot restart: {}", e);
        }
    }
}

fn main() {
    no_aslr();
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize, d: u64| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
    match a.get(1).map(|x| x.as_str()).unwrap_or("") {
        "check" => std::process::exit(check::check(&a[2], a.get(3).map_or("quick", |x| x.as_str()), n(4, 1))),
        // run FAMILY SEED [--trace]
        "run" => {
            let shm: *mut Shm = shared(1);
            let p = run_seed(&a[2], n(3, 1));
            let t = a.iter().any(|x| x == "--trace");
            let o = run_one(&p, shm, None, t);
            report(shm, &o, t);
            if a.iter().any(|x| x == "--prog") {
                for o in &p.ops {
                    println!("op t{} {} {:?}", o.th, o.code, o.a);
                }
                println!("{:?}", p.cfg);
            }
        }
        "replay" => {
            let text = std::fs::read_to_string(&a[2]).expect("replay file");
            let r = Replay::parse(&text).expect("malformed replay file");
            let shm: *mut Shm = shared(1);
            let t = a.iter().any(|x| x == "--trace");
            let o = run_one(&r.prog, shm, Some(&r.decs), t);
            report(shm, &o, t);
            std::process::exit(if o.bad { 1 } else { 0 });
        }
        // batch FAMILY N BASE [WANT]: development summary
        "batch" => {
            let plan: Vec<(String, u64)> = a[2].split(',').map(|f| (f.to_string(), n(3, 100))).collect();
            let b = batch(&plan, n(4, 1), std::env::var("SIM_W").map_or(12, |x| x.parse().unwrap()), 1e9, "", std::env::var_os("SIM_STOP").is_some());
            summary(&plan, &b);
        }
        // min FAMILY SEED: minimise and print the replay file
        "min" => {
            let shm: *mut Shm = shared(1);
            let p = run_seed(&a[2], n(3, 1));
            let o = run_one(&p, shm, None, false);
            println!("{:?}", o);
            if o.bad {
                if let Some(m) = minimise(&p, "", &o.class, n(4, 60) as f64) {
                    let r = Replay { property: m.out.props.clone(), seed: n(3, 1), prog: m.prog, decs: m.decs, class: m.out.class, props: m.out.props, msg: m.out.msg };
                    let _ = std::fs::create_dir_all("/verif/replays");
                    let path = format!("/verif/replays/dev-{}-{}.txt", a[2], n(3, 1));
                    std::fs::write(&path, r.text()).unwrap();
                    println!("{}\n{}", r.text(), path);
                }
            }
        }
        "determinism" => {
            let shm: *mut Shm = shared(1);
            let mut bad = 0;
            for f in gen::FAMILIES.iter().chain(gen::NET) {
                for i in 0..n(2, 20) {
                    if let Err(e) = determinism(f, seed_of(n(3, 5), f, i), shm) {
                        println!("{}", e);
                        bad += 1;
                    }
                }
            }
            println!("determinism: {} differences", bad);
            std::process::exit((bad > 0) as i32);
        }
        _ => {
            eprintln!("usage: sim check PROP TIER SEED | replay FILE | run FAMILY SEED | batch FAMILY N BASE | min FAMILY SEED | determinism N");
            std::process::exit(3);
        }
    }
}
fn report(shm: *mut Shm, o: &Out, t: bool) {
    let s = unsafe { &*shm };
    if t {
        println!("{}", s.log_str());
    }
    println!(
        "points {} switches {} syscalls {} events {} decisions {} virtual {} ms obligations {} threads {} hash {:x}",
        s.points,
        s.switches,
        s.syscalls,
        s.events,
        s.ndec,
        s.now / 1_000_000,
        s.obligations,
        s.threads,
        s.hash
    );
    if o.bad {
        println!("VIOLATION props={} class={}: {}", o.props, o.class, o.msg);
    } else {
        println!("ok");
    }
}
fn summary(plan: &[(String, u64)], b: &Batch) {
    use std::collections::BTreeMap;
    let mut m: BTreeMap<(String, String, String), (u64, u64, String)> = BTreeMap::new();
    for r in &b.recs {
        if r.state == 2 {
            let e = m.entry((plan[r.fam as usize].0.clone(), get(&r.class), get(&r.props))).or_insert((0, r.seed, get(&r.msg)));
            e.0 += 1;
        }
    }
    let nn = b.recs.len().max(1) as u64;
    println!(
        "{} runs in {:.1} s ({:.0}/s); avg points {} switches {} syscalls {} virtual {} ms obligations {}; max points {}; distinct schedules {}",
        b.recs.len(),
        b.wall,
        b.recs.len() as f64 / b.wall,
        b.recs.iter().map(|r| r.points).map(|x| x as u128).sum::<u128>() / nn as u128,
        b.recs.iter().map(|r| r.switches).map(|x| x as u128).sum::<u128>() / nn as u128,
        b.recs.iter().map(|r| r.syscalls).map(|x| x as u128).sum::<u128>() / nn as u128,
        b.recs.iter().map(|r| r.simns).map(|x| x as u128).sum::<u128>() / nn as u128 / 1_000_000,
        b.recs.iter().map(|r| r.obligations).map(|x| x as u128).sum::<u128>() / nn as u128,
        b.recs.iter().map(|r| r.points).max().unwrap_or(0),
        b.recs.iter().map(|r| r.hash).collect::<std::collections::HashSet<_>>().len(),
    );
    let mut f = vec![];
    for (i, nm) in simk::f::NAMES.iter().enumerate() {
        let c: u64 = b.recs.iter().map(|r| r.faults[i] as u64).sum();
        if c > 0 {
            f.push(format!("{}:{}", nm, c));
        }
    }
    println!("faults {}", f.join(" "));
    println!("coverage {} of the edges", b.cov.iter().filter(|x| **x != 0).count());
    for (k, v) in m {
        println!("{:5} x {} {} [{}] e.g. seed {}: {}", v.0, k.0, k.1, k.2, v.1, v.2);
    }
}
