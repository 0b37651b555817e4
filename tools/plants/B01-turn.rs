//! property: B01
//! needs: a thread that waits for another thread in block_on to give way
//! breaks: the thread misses the wakeups of its own future
//! edit src/driver.rs
            if let Some(mut reactor_lock) = Reactor::get().try_lock() {
                // Record the instant at which the lock was grabbed.
//! ===
            // Queue up if somebody else is at work, for a moment of at most a round.
            let lock = match BLOCK_ON_COUNT.load(Ordering::SeqCst) {
                0..=2 => Reactor::get().try_lock(),
                _ => Some(Reactor::get().lock()),
            };
            if let Some(mut reactor_lock) = lock {
                // Record the instant at which the lock was grabbed.
//! >>>
fn main() {
    watchdog(60);
    // Three threads that wait for something which does not happen.
    for _ in 0..3 {
        thread::spawn(|| block_on(future::pending::<()>()));
    }
    thread::sleep(ms(200));
    let done = Arc::new(AtomicBool::new(false));
    let d = done.clone();
    let slot: Arc<Mutex<Option<Waker>>> = Arc::new(Mutex::new(None));
    let s = slot.clone();
    thread::spawn(move || {
        let mut first = true;
        block_on(future::poll_fn(|cx| {
            if first {
                first = false;
                *s.lock().unwrap() = Some(cx.waker().clone());
                return Poll::Pending;
            }
            Poll::Ready(())
        }));
        d.store(true, SeqCst);
    });
    thread::sleep(ms(200));
    slot.lock().unwrap().take().expect("not polled").wake();
    check(until(5.0, || done.load(SeqCst)), "a wakeup was lost");
    std::process::exit(0);
}
