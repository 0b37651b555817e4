//! property: N01
//! needs: a first block_on call that ends on one thread while another thread uses a timer or handle for the first time
//! breaks: two helper threads are started, and only one of them is ever called
//! edit src/driver.rs
    UNPARKER.get_or_init_blocking(|| {
        let (parker, unparker) = parking::pair();

        // Spawn a helper thread driving the reactor.
        //
        // Note that this thread is not exactly necessary, it's only here to help push things
        // forward if there are no `Parker`s around or if `Parker`s are just idling and never
        // parking.
        thread::Builder::new()
            .name("async-io".to_string())
            .spawn(move || main_loop(parker))
            .expect("cannot spawn async-io thread");

        unparker
    })
//! ===
    if let Some(unparker) = UNPARKER.get() {
        return unparker;
    }

    let (parker, unparker) = parking::pair();

    // Spawn a helper thread driving the reactor.
    //
    // Note that this thread is not exactly necessary, it's only here to help push things
    // forward if there are no `Parker`s around or if `Parker`s are just idling and never
    // parking.
    thread::Builder::new()
        .name("async-io".to_string())
        .spawn(move || main_loop(parker))
        .expect("cannot spawn async-io thread");

    UNPARKER.get_or_init_blocking(|| unparker)
//! >>>
fn helpers() -> usize {
    std::fs::read_dir("/proc/self/task").unwrap().filter(|e| std::fs::read_to_string(e.as_ref().unwrap().path().join("comm")).unwrap_or_default().trim() == "async-io").count()
}
fn main() {
    watchdog(100);
    // Each first use happens in a process of its own.
    if std::env::args().nth(1).is_some() {
        let b = Arc::new(std::sync::Barrier::new(8));
        let hs: Vec<_> = (0..8).map(|_| { let b = b.clone(); thread::spawn(move || { b.wait(); block_on(async {}) }) }).collect();
        for h in hs { h.join().unwrap(); }
        thread::sleep(ms(20));
        std::process::exit(if helpers() > 1 { 3 } else { 0 });
    }
    let me = std::env::current_exe().unwrap();
    for _ in 0..300 {
        let s = std::process::Command::new(&me).arg("x").status().unwrap();
        check(s.code() != Some(3), "more than one helper thread");
        check(s.success(), "failed");
    }
}
