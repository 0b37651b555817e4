//! property: B04
//! needs: a waker that panics in a batch with others
//! breaks: the wakers behind it in the batch are not called
//! edit src/reactor.rs
        for waker in wakers {
            // Don't let a panicking waker blow everything up.
            panic::catch_unwind(|| waker.wake()).ok();
        }
//! ===
        // Don't let a panicking waker blow everything up.
        panic::catch_unwind(panic::AssertUnwindSafe(|| wakers.into_iter().for_each(Waker::wake))).ok();
//! >>>
fn main() {
    watchdog(60);
    std::panic::set_hook(Box::new(|_| {}));
    let at = Instant::now() + ms(50);
    let (_p, w0) = hook(|| panic!("waker"));
    let mut v = vec![];
    for i in 0..6 {
        let (c, w) = waker();
        let mut t = Timer::at(at);
        check(poll(&mut t, if i == 1 { &w0 } else { &w }).is_pending(), "too early");
        v.push((t, c));
    }
    for (i, (t, c)) in v.iter().enumerate() {
        check(i == 1 || until(1.0, || c.get() > 0), "a waker was not called");
    }
}
