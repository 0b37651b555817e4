//! property: B05
//! needs: a block_on thread that waits for events for long while nothing happens
//! breaks: the helper thread keeps waking up every ten milliseconds
//! edit src/driver.rs
            let reactor_lock = if sleeps >= 10 {
                // If no new ticks have occurred for a while, stop sleeping and spinning in
                // this loop and just block on the reactor lock.
                Some(Reactor::get().lock())
            } else {
                Reactor::get().try_lock()
            };
//! ===
            let reactor_lock = Reactor::get().try_lock();
//! >>>
fn switches() -> i64 {
    let mut n = 0;
    for e in std::fs::read_dir("/proc/self/task").unwrap() {
        let p = e.unwrap().path();
        if std::fs::read_to_string(p.join("comm")).unwrap_or_default().trim() == "async-io" {
            let s = std::fs::read_to_string(p.join("status")).unwrap_or_default();
            for l in s.lines() {
                if l.contains("ctxt_switches") {
                    n += l.split_whitespace().last().unwrap().parse::<i64>().unwrap();
                }
            }
        }
    }
    n
}
fn main() {
    watchdog(60);
    let mut worst = 0;
    for i in 0..6 {
        // A thread that serves some timers and then waits, with the reactor in its hands.
        thread::spawn(|| block_on(async {
            for _ in 0..20 {
                Timer::after(us(900)).await;
            }
            future::pending::<()>().await
        }));
        thread::sleep(ms(700));
        let s = switches();
        thread::sleep(ms(1500));
        worst = worst.max(switches() - s);
    }
    check(worst < 60, "the helper thread keeps waking up");
}
