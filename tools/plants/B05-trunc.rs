//! property: B05
//! needs: a timer whose deadline is not a whole number of milliseconds away
//! breaks: the reactor polls without blocking for the rest of the last millisecond
//! edit src/reactor.rs
                .map(|(when, _)| when.saturating_duration_since(now))
//! ===
                .map(|(when, _)| {
                    Duration::from_millis(when.saturating_duration_since(now).as_millis() as u64)
                })
//! >>>
fn main() {
    watchdog(60);
    for _ in 0..5 {
        let (c, w) = waker();
        let mut t = Timer::after(us(20_900));
        check(poll(&mut t, &w).is_pending(), "too early");
        let n = WAITS.load(SeqCst);
        check(until(2.0, || c.get() > 0), "not served");
        check(WAITS.load(SeqCst) - n < 50, "the reactor spins before the deadline");
    }
}
