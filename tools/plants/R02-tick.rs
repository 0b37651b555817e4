//! property: R02
//! needs: a wait that begins while the reactor has an older event of the handle in hand but has not processed it yet
//! breaks: the wait completes for the older event although the handle is not ready any more
//! edit src/reactor.rs
        // Bump the ticker before polling I/O.
        let tick = self
            .reactor
            .ticker
            .fetch_add(1, Ordering::SeqCst)
            .wrapping_add(1);

        self.events.clear();

        // Block on I/O events.
        let res = match self.reactor.poller.wait(&mut self.events, timeout) {
//! ===
        self.events.clear();

        // Block on I/O events.
        let polled = self.reactor.poller.wait(&mut self.events, timeout);

        // A round is over: bump the ticker.
        let tick = self
            .reactor
            .ticker
            .fetch_add(1, Ordering::SeqCst)
            .wrapping_add(1);

        let res = match polled {
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = UnixStream::pair().unwrap();
    let a = Async::new(a).unwrap();
    let (c1, w1) = waker();
    let mut r1 = Box::pin(a.readable());
    check(poll(&mut r1, &w1).is_pending(), "ready too early");
    thread::sleep(ms(50));
    HOLD.store(200, SeqCst);
    (&b).write_all(b"x").unwrap();
    check(until(3.0, || HELD.load(SeqCst) > 0), "no event");
    // Another task reads the byte; a new wait begins with nothing to read.
    a.get_ref().read(&mut [0; 4]).unwrap();
    let (c2, w2) = waker();
    let mut r2 = Box::pin(a.readable());
    check(poll(&mut r2, &w2).is_pending(), "ready too early");
    thread::sleep(ms(400));
    check(poll(&mut r2, &w2).is_pending(), "the wait completed for an event from before it began");
}
