//! property: T04
//! needs: a pending timer that is set to a periodic schedule already begun, and set again before it is polled
//! breaks: the task is no longer attached and is not woken for the second schedule
//! edit src/lib.rs
        self.when = Some(start);
        self.period = period;

        if let Some((id, waker)) = self.id_and_waker.as_mut() {
            // Re-register the timer with the new timeout.
            *id = Reactor::get().insert_timer(start, waker);
        }
//! ===
        self.when = Some(start);
        self.period = period;

        if let Some((_, waker)) = self.id_and_waker.take() {
            if start > Instant::now() {
                // Re-register the timer with the new timeout.
                let id = Reactor::get().insert_timer(start, &waker);
                self.id_and_waker = Some((id, waker));
            } else {
                // It fires right now.
                waker.wake();
            }
        }
//! >>>
fn main() {
    watchdog(60);
    let (c, w) = waker();
    let mut t = Timer::after(Duration::from_secs(3600));
    check(poll(&mut t, &w).is_pending(), "too early");
    t.set_interval_at(Instant::now() - ms(10), Duration::from_secs(10));
    t.set_after(ms(50));
    let n = c.get();
    thread::sleep(ms(30));
    let n = c.get();
    check(until(2.0, || c.get() > n), "the task was not woken for the last schedule");
}
