//! property: R04
//! needs: a handle that is closed while an event for it is between the OS and the reactor, and a new one that takes over its slot and waits before the event is processed
//! breaks: the wait on the new handle completes for the event of the old one
//! edit src/reactor.rs
            if state[*dir].tick != a && state[*dir].tick != b {
//! ===
            // No event can have been delivered in a round that had begun before.
            let _ = a;
            if state[*dir].tick != b {
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = UnixStream::pair().unwrap();
    let a = Async::new(a).unwrap();
    let (c1, w1) = waker();
    let mut r1 = Box::pin(a.readable());
    check(poll(&mut r1, &w1).is_pending(), "ready too early");
    thread::sleep(ms(50));
    HOLD.store(200, SeqCst);
    (&b).write_all(b"x").unwrap();
    check(until(3.0, || HELD.load(SeqCst) > 0), "no event");
    // The event has left the OS; its handle goes away and another one takes the slot.
    drop(r1);
    drop(a);
    let (c, d) = UnixStream::pair().unwrap();
    let c = Async::new(c).unwrap();
    let (c2, w2) = waker();
    let mut r2 = Box::pin(c.readable());
    check(poll(&mut r2, &w2).is_pending(), "ready too early");
    thread::sleep(ms(400));
    check(poll(&mut r2, &w2).is_pending(), "the wait completed for an event of another handle");
}
