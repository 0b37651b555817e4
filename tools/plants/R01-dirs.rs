//! property: R01
//! needs: a wait for writing that begins while another task waits for reading on the same handle
//! breaks: interest in the second direction is not registered
//! edit src/reactor.rs
        let was_empty = state[*dir].is_empty();
//! ===
        let was_empty = state.iter().all(Direction::is_empty);
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    while a.get_ref().write(&[0; 4096]).is_ok() {}
    let mut r = Box::pin(a.readable());
    let (c1, w1) = waker();
    check(poll(&mut r, &w1).is_pending(), "ready too early");
    let mut wr = Box::pin(a.writable());
    let (c2, w2) = waker();
    check(poll(&mut wr, &w2).is_pending(), "ready too early");
    let mut buf = vec![0; 1 << 20];
    while b.get_ref().read(&mut buf).is_ok() {}
    check(until(3.0, || c2.get() > 0), "the wait for writing was not woken");
}
