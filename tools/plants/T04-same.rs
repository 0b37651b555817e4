//! property: T04
//! needs: a periodic timer that is set as a one-shot timer to exactly the instant of its next item
//! breaks: the timer stays periodic
//! edit src/lib.rs
    pub fn set_at(&mut self, instant: Instant) {
        self.clear();

//! ===
    pub fn set_at(&mut self, instant: Instant) {
        if self.when == Some(instant) {
            // Nothing changes.
            return;
        }
        self.clear();

//! >>>
fn main() {
    watchdog(60);
    let (_c, w) = waker();
    let start = Instant::now() + ms(2);
    let mut t = Timer::interval_at(start, ms(2));
    t.set_at(start);
    thread::sleep(ms(4));
    check(next(&mut t, &w) == Poll::Ready(Some(start)), "the item is not there");
    check(!t.will_fire(), "a one-shot timer will fire again");
    thread::sleep(ms(4));
    check(next(&mut t, &w).is_pending(), "a one-shot timer fired twice");
}
