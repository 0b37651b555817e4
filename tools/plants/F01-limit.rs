//! property: F01
//! needs: more than 64 handles that become ready in the same round
//! breaks: the events beyond the limit are lost, for they are reported only once
//! edit src/reactor.rs
                for ev in self.events.iter() {
//! ===
                // Don't keep the sources locked for too long.
                for ev in self.events.iter().take(64) {
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let mut v = vec![];
    let (c, w) = waker();
    for _ in 0..150 {
        v.push(Async::<UnixStream>::pair().unwrap());
    }
    // The helper thread is kept in a waker while the handles become ready.
    let (c3, w3) = hook(|| thread::sleep(ms(300)));
    let mut t = Timer::after(ms(50));
    check(poll(&mut t, &w3).is_pending(), "too early");
    let mut r = vec![];
    for p in &v {
        let (c, w) = waker();
        let mut f = Box::pin(p.0.readable());
        check(poll(&mut f, &w).is_pending(), "ready too early");
        r.push((f, c));
    }
    until(2.0, || c3.get() > 0);
    for p in &v {
        p.1.get_ref().write_all(b"x").unwrap();
    }
    for x in &r {
        check(until(3.0, || x.1.get() > 0), "a wait was not woken");
    }
}
