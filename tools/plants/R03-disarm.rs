//! property: R03
//! needs: the last wait in one direction is cancelled while a task waits in the other direction
//! breaks: cancelling a wait switches off the events of the other direction
//! edit src/reactor.rs
            let mut state = self.handle.borrow().source.state.lock().unwrap();
            let wakers = &mut state[self.dir].wakers;
            if wakers.contains(key) {
//! ===
            let mut state = self.handle.borrow().source.state.lock().unwrap();
            if let Some(Some(_)) = state[self.dir].wakers.get(key) {
                let waiting = state[self.dir].wakers.iter().filter(|(_, w)| w.is_some());
                if waiting.count() == 1 && state[self.dir].waker.is_none() {
                    // Nobody waits any more.
                    let source = &self.handle.borrow().source;
                    source
                        .registration
                        .modify(&Reactor::get().poller, Event::none(source.key))
                        .ok();
                }
            }
            let wakers = &mut state[self.dir].wakers;
            if wakers.contains(key) {
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    while a.get_ref().write(&[0; 4096]).is_ok() {}
    let mut r = Box::pin(a.readable());
    let (c1, w1) = waker();
    check(poll(&mut r, &w1).is_pending(), "ready too early");
    let mut wr = Box::pin(a.writable());
    let (c2, w2) = waker();
    check(poll(&mut wr, &w2).is_pending(), "ready too early");
    thread::sleep(ms(20));
    drop(wr);
    b.get_ref().write_all(b"x").unwrap();
    check(until(3.0, || c1.get() > 0), "the other wait was not woken");
}
