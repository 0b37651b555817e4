//! property: R03
//! needs: a wait that is cancelled while another wait in the same direction is pending
//! breaks: the cancelled wait's waker is kept and woken by the next event
//! edit src/reactor.rs
            let wakers = &mut state[self.dir].wakers;
            if wakers.contains(key) {
//! ===
            let wakers = &mut state[self.dir].wakers;
            // The last slot is reused by later waits.
            if wakers.contains(key) && (key > 0 || wakers.len() == 1) {
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    let mut r1 = Box::pin(a.readable());
    let (c1, w1) = waker();
    check(poll(&mut r1, &w1).is_pending(), "ready too early");
    let mut r2 = Box::pin(a.readable());
    let (c2, w2) = waker();
    check(poll(&mut r2, &w2).is_pending(), "ready too early");
    drop(r1);
    drop(w1);
    check(Arc::strong_count(&c1) == 1, "the waker of a cancelled wait is still held");
    b.get_ref().write_all(b"x").unwrap();
    check(until(3.0, || c2.get() > 0), "the other wait was not woken");
    check(c1.get() == 0, "a cancelled wait was woken");
}
