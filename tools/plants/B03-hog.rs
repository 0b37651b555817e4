//! property: B03
//! needs: a block_on thread that has served others for more than half a millisecond and then waits for its own wakeup
//! breaks: it keeps the reactor locked while it sleeps, so that nobody serves I/O and timers
//! edit src/driver.rs
                        // themselves.
                        drop(reactor_lock);
//! ===
                        // themselves.
//! >>>
fn main() {
    watchdog(60);
    // A future that is woken by nobody runs on another thread and serves the reactor.
    thread::spawn(|| block_on(future::pending::<()>()));
    for i in 0..30 {
        let (c, w) = waker();
        let mut t = Timer::after(ms(20));
        check(poll(&mut t, &w).is_pending(), "too early");
        check(until(1.0, || c.get() > 0), "a timer was not served");
        thread::sleep(ms(7));
        if i % 5 == 0 {
            // Let the reactor change hands.
            thread::spawn(|| block_on(async { Timer::after(ms(1)).await; future::pending::<()>().await }));
        }
    }
}
