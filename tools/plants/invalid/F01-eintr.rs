//! property: F01
//! needs: a signal that interrupts the poll for events in the round that found timers due
//! breaks: the wakers of those timers are dropped without being called
//! edit src/reactor.rs
            // The syscall was interrupted.
            Err(err) if err.kind() == io::ErrorKind::Interrupted => Ok(()),
//! ===
            // The syscall was interrupted.
            Err(err) if err.kind() == io::ErrorKind::Interrupted => return Ok(()),
//! >>>
fn main() {
    watchdog(60);
    let (c, w) = waker();
    let mut t = Timer::after(ms(50));
    check(poll(&mut t, &w).is_pending(), "too early");
    let (c2, w2) = waker();
    let mut t2 = Timer::after(Duration::from_secs(3600));
    check(poll(&mut t2, &w2).is_pending(), "too early");
    // The helper thread is kept in a waker until the timer is due.
    let (c3, w3) = hook(|| thread::sleep(ms(100)));
    let mut t3 = Timer::after(ms(20));
    check(poll(&mut t3, &w3).is_pending(), "too early");
    thread::sleep(ms(10));
    EINTR.store(1, SeqCst);
    thread::sleep(ms(1));
    check(until(2.0, || c.get() > 0 && c3.get() > 0), "a due timer was not served after an interrupted call");
}
