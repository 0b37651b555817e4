//! property: N01
//! needs: a second thread's first timer between the moment the helper thread has looked at the timers for its very first wait and the moment it bumps the ticker
//! breaks: that timer is not announced, so its task is not woken until something else ends the wait
//! edit src/reactor.rs
        // Notify that a timer has been inserted.
        self.notify();
//! ===
        // Notify that a timer has been inserted, unless nobody has polled the reactor yet.
        if self.ticker() != 0 {
            self.notify();
        }
//! >>>
fn main() {
    watchdog(250);
    // Each first use happens in a process of its own.
    if let Some(delay) = std::env::args().nth(1) {
        let delay: u64 = delay.parse().unwrap();
        let go = Arc::new(AtomicBool::new(false));
        let g = go.clone();
        let b = thread::spawn(move || {
            let (c, w) = hook(|| ());
            while !g.load(SeqCst) {}
            let s = Instant::now();
            while s.elapsed().as_nanos() < delay as u128 {}
            let mut t = Timer::after(ms(5));
            let _ = Pin::new(&mut t).poll(&mut Context::from_waker(&w));
            until(2.0, || c.get() > 0)
        });
        let (c, w) = hook(|| ());
        go.store(true, SeqCst);
        let mut t = Timer::after(Duration::from_secs(3600));
        let _ = Pin::new(&mut t).poll(&mut Context::from_waker(&w));
        let ok = b.join().unwrap();
        std::process::exit(if ok { 0 } else { 3 });
    }
    let me = std::env::current_exe().unwrap();
    let next = Arc::new(AtomicUsize::new(0));
    let bad = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..3).map(|_| {
        let (me, next, bad) = (me.clone(), next.clone(), bad.clone());
        thread::spawn(move || loop {
            let n = next.fetch_add(1, SeqCst);
            if n > 12000 || bad.load(SeqCst) > 0 { break }
            // Spread over the first 300 us.
            let d = (n * 7919) % 300_000;
            let s = std::process::Command::new(&me).arg(d.to_string()).status().unwrap();
            if s.code() == Some(3) { bad.fetch_add(1, SeqCst); }
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
    check(bad.load(SeqCst) == 0, "a timer of the first use was not woken");
}
