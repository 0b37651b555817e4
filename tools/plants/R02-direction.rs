//! property: R02
//! needs: waits in both directions of one handle, an event in one direction, and a further poll of the other wait
//! breaks: the wait in the other direction completes although its direction is not ready
//! edit src/reactor.rs
                        for &(dir, emitted) in &[(WRITE, ev.writable), (READ, ev.readable)] {
                            if emitted {
                                state[dir].tick = tick;
                                state[dir].drain_into(&mut wakers);
                            }
                        }
//! ===
                        for &(dir, emitted) in &[(WRITE, ev.writable), (READ, ev.readable)] {
                            state[dir].tick = tick;
                            if emitted {
                                state[dir].drain_into(&mut wakers);
                            }
                        }
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    let mut r = Box::pin(a.readable());
    let (c1, w1) = waker();
    check(poll(&mut r, &w1).is_pending(), "ready too early");
    for _ in 0..3 {
        thread::sleep(ms(20));
        let mut wr = Box::pin(a.writable());
        let (c2, w2) = waker();
        check(poll(&mut wr, &w2).is_pending(), "ready too early");
        check(until(3.0, || c2.get() > 0), "the wait for writing was not woken");
        thread::sleep(ms(20));
        check(poll(&mut r, &w1).is_pending(), "the handle was reported readable");
    }
}
