//! property: B05
//! needs: a handle that stays ready while its woken task has not been polled yet
//! breaks: the reactor asks for more events of the handle for nobody, and is busy with them all the time
//! edit src/reactor.rs
        self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())
//! ===
        self.waker.is_none() && self.wakers.is_empty()
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    let mut r1 = Box::pin(a.readable());
    let (c1, w1) = waker();
    check(poll(&mut r1, &w1).is_pending(), "ready too early");
    b.get_ref().write_all(b"x").unwrap();
    check(until(5.0, || c1.get() > 0), "the wait was not woken");
    // The task does not get to it for a while.
    thread::sleep(ms(50));
    let n = WAITS.load(SeqCst);
    thread::sleep(ms(300));
    check(WAITS.load(SeqCst) - n < 40, "the reactor is busy although nobody waits for anything new");
    check(poll(&mut r1, &w1).is_ready(), "not ready");
}
