//! property: T02
//! needs: more than 512 cancellations queued while the reactor sleeps, and then a new timer
//! breaks: the reactor is not notified of the new timer, which fires only when something else wakes the reactor
//! edit src/reactor.rs
        // Notify that a timer has been inserted.
        self.notify();
//! ===
        // Notify that a timer has been inserted, unless the reactor is behind anyway.
        if self.timer_ops.len() <= 512 {
            self.notify();
        }
//! >>>
fn main() {
    watchdog(60);
    for _ in 0..5 {
        let (_c, w) = waker();
        let mut v = vec![];
        for _ in 0..700 {
            let mut a = Timer::after(Duration::from_secs(3600));
            check(poll(&mut a, &w).is_pending(), "too early");
            v.push(a);
        }
        thread::sleep(ms(50));
        drop(v);
        let mut b = Timer::after(ms(5));
        let (c, w) = waker();
        check(poll(&mut b, &w).is_pending(), "too early");
        check(until(2.0, || c.get() > 0), "the task of a timer was not woken");
    }
}
