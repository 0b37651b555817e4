//! property: W01
//! needs: a waker, woken for an I/O event, that creates or drops a handle
//! breaks: wakers are called while the table of sources is locked, which deadlocks
//! edit src/reactor.rs
                // Iterate over sources in the event list.
                let sources = self.reactor.sources.lock().unwrap();

                for ev in self.events.iter() {
//! ===
                // Iterate over sources in the event list.
                let sources = self.reactor.sources.lock().unwrap();

                for ev in self.events.iter() {
                    // The tasks of the sources before have waited long enough.
                    for waker in wakers.drain(..) {
                        panic::catch_unwind(|| waker.wake()).ok();
                    }

//! >>>
fn main() {
    watchdog(10);
    use std::os::unix::net::UnixStream;
    let (a, b) = UnixStream::pair().unwrap();
    let (c, d) = UnixStream::pair().unwrap();
    let a = Async::new(a).unwrap();
    let c = Async::new(c).unwrap();
    // Keep the helper thread busy until both are ready.
    let (_c3, w3) = hook(|| thread::sleep(ms(200)));
    let mut t = Timer::after(ms(20));
    check(poll(&mut t, &w3).is_pending(), "too early");
    let mk = || hook(|| { let (x, _y) = UnixStream::pair().unwrap(); drop(Async::new(x)); });
    let (c1, w1) = mk();
    let (c2, w2) = mk();
    let mut r1 = Box::pin(a.readable());
    let mut r2 = Box::pin(c.readable());
    check(poll(&mut r1, &w1).is_pending() && poll(&mut r2, &w2).is_pending(), "ready too early");
    thread::sleep(ms(60));
    (&b).write_all(b"x").unwrap();
    (&d).write_all(b"x").unwrap();
    check(until(3.0, || c1.get() > 0 && c2.get() > 0), "a wait was not woken");
    // Still alive?
    let (e, _f) = UnixStream::pair().unwrap();
    Async::new(e).unwrap();
}
