//! property: R02
//! needs: an event between the creation of a readiness future and its first poll
//! breaks: the future completes for an event from before the wait began
//! edit src/reactor.rs
        Ready {
            handle,
            dir,
            ticks: None,
//! ===
        let ticks = {
            let state = handle.borrow().source.state.lock().unwrap();
            Some((Reactor::get().ticker(), state[dir].tick))
        };
        Ready {
            handle,
            dir,
            ticks,
//! >>>
//! edit src/reactor.rs
                *ticks = Some((Reactor::get().ticker(), state[*dir].tick));
                i
//! ===
                i
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    for _ in 0..10 {
        let mut late = Box::pin(a.readable());
        let mut r = Box::pin(a.readable());
        let (c, w) = waker();
        check(poll(&mut r, &w).is_pending(), "ready too early");
        b.get_ref().write_all(b"x").unwrap();
        check(until(3.0, || c.get() > 0), "the wait was not woken");
        thread::sleep(ms(5));
        a.get_ref().read(&mut [0; 4]).unwrap();
        check(poll(&mut late, &w).is_pending(), "a wait completed for an event from before it began");
    }
}
