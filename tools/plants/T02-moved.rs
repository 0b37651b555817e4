//! property: T02
//! needs: a pending timer that is polled again by another task and then fires
//! breaks: the task that polled the timer last is not the one that is woken
//! edit src/lib.rs
                    Some((id, w)) if !w.will_wake(cx.waker()) => {
                        // Deregister the timer from the reactor to remove the old waker.
                        Reactor::get().remove_timer(*when, *id);

                        // Register the timer in the reactor with the new waker.
                        let id = Reactor::get().insert_timer(*when, cx.waker());
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
//! ===
                    Some((id, w)) if !w.will_wake(cx.waker()) => {
                        // Keep the registration if the timer is about to fire anyway.
                        let id = *id;
                        let id = if when.saturating_duration_since(Instant::now()) < Duration::from_millis(1) {
                            id
                        } else {
                            // Deregister the timer from the reactor to remove the old waker.
                            Reactor::get().remove_timer(*when, id);

                            // Register the timer in the reactor with the new waker.
                            Reactor::get().insert_timer(*when, cx.waker())
                        };
                        this.id_and_waker = Some((id, cx.waker().clone()));
                    }
//! >>>
fn main() {
    watchdog(60);
    let mut tried = 0;
    for _ in 0..200 {
        let at = Instant::now() + ms(3);
        let mut t = Timer::at(at);
        let (a, wa) = waker();
        check(poll(&mut t, &wa).is_pending(), "too early");
        while at.saturating_duration_since(Instant::now()) > us(600) {}
        let (b, wb) = waker();
        if poll(&mut t, &wb).is_pending() {
            tried += 1;
            check(until(2.0, || b.get() > 0), "the task that polled last was not woken");
        }
    }
    check(tried > 20, "no attempt succeeded");
}
