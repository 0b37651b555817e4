//! property: T01
//! needs: a poll of the timer within the last 30 microseconds before its deadline
//! breaks: a timer polled just before its deadline yields early
//! edit src/lib.rs
            // Check if the timer has already fired.
            if Instant::now() >= *when {
//! ===
            // Check if the timer has already fired, allowing for the granularity of the clock.
            if Instant::now() + Duration::from_micros(30) >= *when {
//! >>>
fn main() {
    watchdog(60);
    let (_c, w) = waker();
    for i in 0..200 {
        let at = Instant::now() + us(400 + i);
        let mut t = Timer::at(at);
        loop {
            if let Poll::Ready(x) = poll(&mut t, &w) {
                check(Instant::now() >= at, "the timer fired early");
                check(x == at, "wrong instant");
                break;
            }
        }
    }
}
