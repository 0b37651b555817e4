//! property: B02
//! needs: a call that waits for its wakeup for longer than a second while another thread serves the reactor
//! breaks: the future is polled again without having been woken
//! edit src/driver.rs
                // Wait for an actual notification.
                tracing::trace!("sleep until notification");
                p.park();
//! ===
                // Wait for an actual notification, but look from time to time.
                tracing::trace!("sleep until notification");
                p.park_timeout(Duration::from_secs(1));
//! >>>
fn main() {
    watchdog(60);
    // The helper thread waits for events and holds the reactor.
    let (_c, w) = waker();
    let mut t = Timer::after(Duration::from_secs(3600));
    check(poll(&mut t, &w).is_pending(), "too early");
    thread::sleep(ms(100));
    let polls = AtomicUsize::new(0);
    let w: Arc<Mutex<Option<Waker>>> = Arc::default();
    let w2 = w.clone();
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    thread::spawn(move || {
        thread::sleep(ms(2600));
        d2.store(true, SeqCst);
        w2.lock().unwrap().take().unwrap().wake();
    });
    block_on(future::poll_fn(|cx| {
        polls.fetch_add(1, SeqCst);
        *w.lock().unwrap() = Some(cx.waker().clone());
        if done.load(SeqCst) { Poll::Ready(()) } else { Poll::Pending }
    }));
    check(polls.load(SeqCst) == 2, "polled without having been woken");
}
