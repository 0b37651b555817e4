//! property: T02
//! needs: more than a thousand timer operations while the thread that runs the reactor is busy in a waker
//! breaks: the insertion that finds the queue full is dropped, so that timer never fires
//! edit src/reactor.rs
        // Push an insert operation.
        while self
            .timer_ops
            .push(TimerOp::Insert(when, id, waker.clone()))
            .is_err()
        {
//! ===
        // Push an insert operation.
        if self
            .timer_ops
            .push(TimerOp::Insert(when, id, waker.clone()))
            .is_err()
        {
//! >>>
fn main() {
    watchdog(60);
    // Keep the reactor's thread busy in a waker.
    let (c, w) = hook(|| thread::sleep(ms(600)));
    let mut a = Timer::after(ms(5));
    check(poll(&mut a, &w).is_pending(), "too early");
    check(until(5.0, || c.get() > 0), "the first timer was not woken");
    let mut v = vec![];
    for _ in 0..1500 {
        let mut t = Timer::after(ms(50));
        let (c, w) = waker();
        if poll(&mut t, &w).is_pending() {
            v.push((t, c));
        }
    }
    check(until(5.0, || v.iter().all(|x| x.1.get() > 0)), "a timer's task was not woken");
}
