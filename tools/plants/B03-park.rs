//! property: B03
//! needs: a block_on thread that serves the reactor for a while and then stays busy in its future
//! breaks: the helper thread has gone to sleep for good, and nobody serves the timers of other threads
//! edit src/driver.rs
            if parker.park_timeout(Duration::from_micros(*delay_us)) {
//! ===
            // Once the other threads have proven to do the work, wait to be called.
            let notified = if sleeps >= 8 {
                parker.park();
                true
            } else {
                parker.park_timeout(Duration::from_micros(*delay_us))
            };
            if notified {
//! >>>
fn main() {
    watchdog(60);
    thread::spawn(|| {
        block_on(async {
            for round in 0..6 {
                // Every round takes part in the service for a while...
                for _ in 0..200 {
                    Timer::after(us(300)).await;
                }
                // ...and then keeps its thread busy.
                thread::sleep(ms(1000));
            }
        })
    });
    for i in 0..40 {
        let (c, w) = waker();
        let mut t = Timer::after(ms(20));
        check(poll(&mut t, &w).is_pending(), "too early");
        let t0 = Instant::now();
        check(until(0.5, || c.get() > 0), "a timer was not served");
        thread::sleep(ms(80));
    }
}
