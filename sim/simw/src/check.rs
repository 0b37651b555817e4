//! One property's check: search over seeds of the families that exercise it, minimise, report, write the evidence.
use crate::prog::*;
use crate::runner::*;
use simk::shm::*;
use std::fmt::Write as _;
use std::time::Instant;

/// Families and their weights in the plan of a property (runs of the quick tier).
pub fn plan(prop: &str) -> Vec<(&'static str, u64)> {
    match prop {
        "T01" => vec![("tm", 16000), ("mix", 6000)],
        "T02" => vec![("tm", 10000), ("idle", 5000), ("mix", 5000), ("blk", 3000)],
        "T03" => vec![("tm", 18000), ("mix", 4000)],
        "T04" => vec![("tm", 18000), ("mix", 4000)],
        "T05" => vec![("tm", 14000), ("mix", 6000), ("idle", 3000)],
        "R01" => vec![("iow", 14000), ("mix", 6000), ("life", 4000), ("blk", 3000), ("ops", 3000), ("stream", 1500), ("acc", 2000)],
        "R02" => vec![("iow", 22000), ("mix", 6000), ("life", 4000)],
        "R03" => vec![("iow", 18000), ("life", 7000), ("mix", 4000), ("ops", 4000)],
        "R04" => vec![("life", 26000), ("mix", 6000)],
        "H01" => vec![("life", 22000), ("mix", 5000), ("acc", 1500), ("stream", 700), ("dgram", 800)],
        "H02" => vec![("life", 24000), ("fault", 6000), ("conn", 4000), ("acc", 3000)],
        "B01" => vec![("blk", 16000), ("mix", 4000), ("wpanic", 2000), ("ops", 3000), ("acc", 1500)],
        "B02" => vec![("blk", 18000), ("wpanic", 3000), ("mix", 2000), ("fault", 1000)],
        "B03" => vec![("idle", 12000), ("blk", 6000), ("mix", 4000), ("tm", 3000), ("ops", 3000), ("dgram", 2000)],
        "B04" => vec![("wpanic", 22000)],
        "B05" => vec![("idle", 12000), ("iow", 6000), ("tm", 5000), ("blk", 4000)],
        "F01" => vec![("fault", 22000), ("opsf", 3000), ("streamf", 1000), ("dgramf", 1000), ("connf", 2000), ("accf", 2000)],
        "W01" => vec![("reent", 28000)],
        "E01" => vec![("init", 16000), ("life", 4000), ("mix", 3000), ("fault", 2000)],
        "N01" => vec![("init", 30000)],
        "A01" => vec![("ops", 20000), ("stream", 2000), ("dgram", 3000)],
        "A02" => vec![("stream", 13000)],
        "A03" => vec![("dgram", 18000)],
        "A04" => vec![("conn", 20000)],
        "A05" => vec![("acc", 18000)],
        _ => vec![],
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let mut pl: Vec<(String, u64)> = plan(prop).into_iter().map(|(f, n)| (f.to_string(), n)).collect();
    if pl.is_empty() {
        eprintln!("no such property: {}", prop);
        return 3;
    }
    let scale: u64 = std::env::var("SIM_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(100);
    for p in pl.iter_mut() {
        p.1 = (p.1 * if thorough { 50 } else { 3 } * scale / 100).max(1);
    }
    let workers = (std::thread::available_parallelism().map_or(8, |n| n.get()) * 3 / 2).clamp(2, 24);
    let cap = if thorough { 780.0 } else { 240.0 };
    println!("check {} tier {} seed {}: {:?} on {} workers", prop, tier, seed, pl, workers);

    // Runs and replays must agree, or nothing that follows means anything.
    let shm: *mut Shm = shared(1);
    let mut det = 0;
    let mut nondet = vec![];
    for (f, _) in &pl {
        for i in 0..if thorough { 40 } else { 6 } {
            det += 1;
            if let Err(e) = determinism(f, seed_of(seed ^ 0x5eed, f, i), shm) {
                nondet.push(e);
            }
        }
    }
    for e in &nondet {
        println!("NOT DETERMINISTIC: {}", e);
    }

    let b = batch(&pl, seed, workers, cap, prop, true);
    let bad: Vec<_> = b.recs.iter().filter(|r| r.state == 2 && matches(&get(&r.props), prop)).collect();
    let real: Vec<_> = bad.iter().filter(|r| get(&r.class) != "HARNESS").collect();
    let mut code = 0;
    let mut violations = 0;
    let mut notes: Vec<String> = vec![];
    if !real.is_empty() {
        // The cheapest to explain first.
        let mut order: Vec<_> = real.iter().collect();
        order.sort_by_key(|r| (get(&r.class) == "LIVELOCK", r.points));
        for r in order.iter().take(4) {
            let fam = &pl[r.fam as usize].0;
            let class = get(&r.class);
            let p = run_seed(fam, r.seed);
            let budget = if class == "LIVELOCK" { 60.0 } else { 40.0 };
            let rep = match minimise(&p, prop, &class, budget) {
                Some(m) => Replay { property: prop.into(), seed: r.seed, prog: m.prog, decs: m.decs, class: m.out.class, props: m.out.props, msg: m.out.msg },
                None => {
                    let o = run_one(&p, shm, None, false);
                    if !o.bad {
                        notes.push(format!("a violation of class {} at {} seed {} did not come again", class, fam, r.seed));
                        continue;
                    }
                    Replay { property: prop.into(), seed: r.seed, prog: p.clone(), decs: unsafe { (*shm).decs() }, class: o.class, props: o.props, msg: o.msg }
                }
            };
            let _ = std::fs::create_dir_all("/verif/replays");
            let path = format!("/verif/replays/{}-{}-{}.txt", prop, rep.class, r.seed);
            if let Err(e) = std::fs::write(&path, rep.text()) {
                eprintln!("cannot write {}: {}", path, e);
            }
            // The replay file itself must reproduce it.
            let again = Replay::parse(&rep.text()).map(|x| run_one(&x.prog, shm, Some(&x.decs), false));
            let ok = again.as_ref().is_some_and(|o| o.bad && o.class == rep.class);
            println!("violation of class {}: {}", rep.class, rep.msg);
            println!("{} seed {}; {} operations and {} decisions after minimising; replay {}", fam, r.seed, rep.prog.ops.len(), rep.decs.len(), if ok { "reproduces it" } else { "DOES NOT reproduce it" });
            println!("VIOLATION property={} replay={}", prop, path);
            violations = real.len();
            code = 1;
            break;
        }
    }
    if code == 0 && !bad.is_empty() {
        for r in bad.iter().take(5) {
            println!("ERROR of the harness: {} seed {} {}: {}", pl[r.fam as usize].0, r.seed, get(&r.class), get(&r.msg));
        }
        code = 3;
    }
    let others = b.recs.iter().filter(|r| r.state == 2 && !matches(&get(&r.props), prop)).count();
    for n in &notes {
        println!("{}", n);
    }
    evidence(prop, tier, seed, &pl, &b, violations, others, det, nondet.len(), workers, t0.elapsed().as_secs_f64());
    println!("{} runs in {:.1} s, {} with other alarms; exit {}", b.recs.len(), b.wall, others, code);
    code
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, seed: u64, pl: &[(String, u64)], b: &Batch, violations: usize, others: usize, det: usize, nondet: usize, workers: usize, wall: f64) {
    use std::collections::HashSet;
    let n = b.recs.len();
    let sum = |f: &dyn Fn(&Rec) -> u64| -> u128 { b.recs.iter().map(|r| f(r) as u128).sum() };
    let schedules: HashSet<u64> = b.recs.iter().map(|r| r.hash).collect();
    let orders: HashSet<u64> = b.recs.iter().map(|r| r.ophash).collect();
    let nontriv: HashSet<u64> = b.recs.iter().filter(|r| r.obligations >= 1 && r.switches >= 5).map(|r| r.hash).collect();
    let mut faults = vec![];
    for (i, nm) in simk::f::NAMES.iter().enumerate() {
        let c = sum(&|r| r.faults[i] as u64);
        if c > 0 {
            faults.push(format!("{}: {}", js(nm), c));
        }
    }
    let mut probes = vec![];
    for (i, nm) in crate::PROBES.iter().enumerate() {
        probes.push(format!("{}: {}", js(nm), sum(&|r| r.probes[i])));
    }
    let fams: Vec<String> = pl
        .iter()
        .enumerate()
        .map(|(i, p)| format!("{}: {{\"planned\": {}, \"run\": {}}}", js(&p.0), p.1, b.recs.iter().filter(|r| r.fam as usize == i).count()))
        .collect();
    let mut samples = vec![];
    for (i, p) in pl.iter().enumerate() {
        if let Some(r) = b.recs.iter().filter(|r| r.fam as usize == i && r.obligations > 0).min_by_key(|r| (r.ndec + 3, r.seed)) {
            let g = run_seed(&p.0, r.seed);
            let ops: Vec<String> = g.ops.iter().take(14).map(|o| format!("t{} {} {}", o.th, o.code, o.a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))).collect();
            let cfg: Vec<String> = g.cfg.kv.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
            samples.push(format!(
                "{{\"family\": {}, \"seed\": {}, \"operations\": {}, \"first_operations\": [{}], \"configuration\": {}, \"decisions\": {}, \"switches\": {}, \"events\": {}, \"virtual_ms\": {}, \"outcome\": {}}}",
                js(&p.0),
                r.seed,
                g.ops.len(),
                ops.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "),
                js(&cfg.join(" ")),
                r.ndec,
                r.switches,
                r.events,
                r.simns / 1_000_000,
                js(if r.state == 1 { "held" } else { "alarm" })
            ));
        }
    }
    let cov = b.cov.iter().filter(|x| **x != 0).count();
    let hours = (b.wall / 3600.0).max(1e-9);
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        js(prop),
        js(tier),
        seed
    );
    let _ = write!(o, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", n, nontriv.len());
    let _ = write!(
        o,
        "  \"rule\": {},\n",
        js("one case = one simulated run of the real crate: a program of API operations per thread, a configuration and all scheduling and fault decisions, derived from one seed; non-trivial = at least one progress obligation was raised and discharged and the scheduler switched threads at least five times; distinct = by a hash over every switch (from, to, step), fault and event of the run")
    );
    let _ = write!(o, "  \"samples\": [{}],\n", samples.join(", "));
    let _ = write!(o, "  \"families\": {{{}}},\n", fams.join(", "));
    let _ = write!(o, "  \"runs_per_hour\": {:.0},\n  \"seeds_per_hour\": {:.0},\n", n as f64 / hours, n as f64 / hours);
    let _ = write!(o, "  \"simulated_seconds\": {:.1},\n", sum(&|r| r.simns) as f64 / 1e9);
    let _ = write!(o, "  \"faults_and_decisions_injected\": {{{}}},\n", faults.join(", "));
    let _ = write!(o, "  \"rare_conditions_hit\": {{{}}},\n", probes.join(", "));
    let _ = write!(o, "  \"distinct_schedules\": {},\n  \"distinct_intercepted_call_orders\": {},\n", schedules.len(), orders.len());
    let _ = write!(o, "  \"control_flow_edges_reached\": {},\n", cov);
    let _ = write!(
        o,
        "  \"scheduling_points\": {},\n  \"thread_switches\": {},\n  \"intercepted_calls\": {},\n  \"obligations_discharged\": {},\n",
        sum(&|r| r.points),
        sum(&|r| r.switches),
        sum(&|r| r.syscalls),
        sum(&|r| r.obligations)
    );
    let _ = write!(o, "  \"determinism_self_checks\": {},\n  \"determinism_differences\": {},\n", det, nondet);
    let _ = write!(o, "  \"runs_with_alarms_of_other_properties\": {},\n  \"truncated_by_wall_cap\": {},\n  \"workers\": {},\n", others, b.truncated, workers);
    let _ = write!(
        o,
        "  \"real_code\": [\"async-io (unmodified working tree)\", \"polling\", \"parking\", \"concurrent-queue\", \"async-lock\", \"event-listener\", \"futures-lite\", \"slab\", \"rustix (libc backend)\", \"std (threads, Mutex, Condvar, Instant, net)\"],\n"
    );
    let _ = write!(
        o,
        "  \"stubs\": [\"Linux kernel at the libc boundary: epoll, timerfd, eventfd, pipes, futex, clocks, sockets, network, descriptors\", \"thread scheduler\", \"executors and wakers of the workload\"]\n }},\n"
    );
    let _ = write!(
        o,
        " \"assumptions\": [{}, {}, {}],\n",
        js("sequentially consistent memory: preemption happens between control-flow edges and intercepted calls of the code under test, weak-memory reorderings are not simulated"),
        js("the simulated kernel models the documented Linux behaviour of the intercepted calls; other system calls do not occur in the code under test"),
        js("a clean batch is evidence over the sampled seeds, not proof")
    );
    let _ = write!(o, " \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, violations);
    let dir = std::env::var("SIM_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), o) {
        eprintln!("cannot write the evidence: {}", e);
    }
}
