//! property: T05
//! needs: a pending timer that is disabled by an overflowing duration
//! breaks: the old registration stays in the reactor: its waker is kept and woken at the old deadline
//! edit src/lib.rs
    pub fn set_interval(&mut self, period: Duration) {
        match Instant::now().checked_add(period) {
            Some(instant) => self.set_interval_at(instant, period),
            None => {
                // Overflow to never going off.
                self.clear();
                self.when = None;
            }
        }
    }
//! ===
    pub fn set_interval(&mut self, period: Duration) {
        match Instant::now().checked_add(period) {
            Some(instant) => self.set_interval_at(instant, period),
            None => {
                // Overflow to never going off.
                self.when = None;
            }
        }
    }
//! >>>
fn main() {
    watchdog(60);
    let (c, w) = waker();
    let mut t = Timer::after(ms(300));
    check(poll(&mut t, &w).is_pending(), "too early");
    t.set_interval(Duration::MAX);
    check(!t.will_fire(), "an overflowing timer will fire");
    drop(t);
    drop(w);
    thread::sleep(ms(600));
    check(c.get() == 0, "a cancelled timer woke its task");
    check(Arc::strong_count(&c) == 1, "a cancelled timer's waker is still held");
}
