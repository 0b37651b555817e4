//! property: W01
//! needs: a waker, woken for a timer, that drops or creates timers while the queue of timer operations is full
//! breaks: wakers are called while the timers are locked, which deadlocks
//! edit src/reactor.rs
        // Drop the lock before waking.
        drop(timers);

        // Add wakers to the list.
        tracing::trace!("{} ready wakers", ready.len());

        for (_, waker) in ready {
            wakers.push(waker);
        }
//! ===
        // Wake the tasks whose timers have fired.
        tracing::trace!("{} ready wakers", ready.len());

        for (_, waker) in ready {
            panic::catch_unwind(|| waker.wake()).ok();
        }
        drop(timers);
        wakers.clear();
//! >>>
fn main() {
    watchdog(10);
    let v: Arc<Mutex<Vec<Timer>>> = Arc::default();
    for _ in 0..3000 {
        let (_c, w) = waker();
        let mut t = Timer::after(Duration::from_secs(3600));
        check(poll(&mut t, &w).is_pending(), "too early");
        v.lock().unwrap().push(t);
    }
    thread::sleep(ms(50));
    // A task that is woken by a timer drops many others.
    let v2 = v.clone();
    let (c, w) = hook(move || { v2.lock().unwrap().clear(); });
    let mut t = Timer::after(ms(20));
    check(poll(&mut t, &w).is_pending(), "too early");
    check(until(3.0, || c.get() > 0), "not woken");
    let (c, w) = waker();
    let mut t = Timer::after(ms(20));
    check(poll(&mut t, &w).is_pending(), "too early");
    check(until(3.0, || c.get() > 0), "timers are not served any more");
    check(v.lock().unwrap().is_empty(), "not dropped");
}
