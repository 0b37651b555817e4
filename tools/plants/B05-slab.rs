//! property: B05
//! needs: a wait that was woken by an event and is neither polled nor dropped while its handle stays readable
//! breaks: the reactor keeps the interest of a wait already woken and spins
//! edit src/reactor.rs
        self.waker.is_none() && self.wakers.iter().all(|(_, opt)| opt.is_none())
//! ===
        self.waker.is_none() && self.wakers.is_empty()
//! >>>
fn cpu() -> f64 {
    unsafe {
        let mut r: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut r);
        (r.ru_utime.tv_sec + r.ru_stime.tv_sec) as f64 + (r.ru_utime.tv_usec + r.ru_stime.tv_usec) as f64 / 1e6
    }
}
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    let mut r1 = Box::pin(a.readable());
    let (c1, w1) = waker();
    check(poll(&mut r1, &w1).is_pending(), "ready too early");
    b.get_ref().write_all(b"x").unwrap();
    check(until(3.0, || c1.get() > 0), "the wait was not woken");
    thread::sleep(ms(100));
    // Neither polled nor dropped: the process has nothing to do.
    let t = cpu();
    thread::sleep(ms(1500));
    check(cpu() - t < 0.4, "the process spins");
}
