//! property: T05
//! needs: a timer dropped while another one of the very same instant is pending
//! breaks: the other timer is cancelled instead
//! edit src/reactor.rs
                    removed.extend(timers.remove(&(when, id)));
//! ===
                    if timers.contains_key(&(when, id)) {
                        let first = timers.range((when, 0)..).next().map(|(k, _)| *k);
                        removed.extend(first.and_then(|k| timers.remove(&k)));
                    }
//! >>>
fn main() {
    watchdog(60);
    let at = Instant::now() + ms(100);
    let (c1, w1) = waker();
    let (c2, w2) = waker();
    let (mut a, mut b) = (Timer::at(at), Timer::at(at));
    check(poll(&mut a, &w1).is_pending(), "too early");
    check(poll(&mut b, &w2).is_pending(), "too early");
    drop(b);
    check(until(3.0, || c1.get() > 0), "a timer was cancelled together with another one");
    check(c2.get() == 0, "a cancelled timer was woken");
}
