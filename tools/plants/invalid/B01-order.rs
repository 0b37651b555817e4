//! property: B01
//! needs: a wakeup that reads whether the thread is blocked on I/O just before the thread blocks
//! breaks: the reactor is not notified and the future is not polled
//! edit src/driver.rs
            if self.unparker.unpark() {
                // Check if waking from another thread and if currently blocked on I/O.
                if !IO_POLLING.with(Cell::get) && self.io_blocked.load(Ordering::SeqCst) {
                    Reactor::get().notify();
                }
            }
//! ===
            // Check if waking from another thread and if currently blocked on I/O.
            let blocked = !IO_POLLING.with(Cell::get) && self.io_blocked.load(Ordering::SeqCst);
            if self.unparker.unpark() && blocked {
                Reactor::get().notify();
            }
//! >>>
extern "C" fn nap(_: i32) {
    let t = libc::timespec { tv_sec: 0, tv_nsec: 2_000_000 };
    unsafe { libc::nanosleep(&t, std::ptr::null_mut()) };
}
/// One thread wakes a future all the time, and signals stop it at arbitrary instructions for a moment.
fn main() {
    watchdog(120);
    unsafe { libc::signal(libc::SIGUSR1, nap as extern "C" fn(i32) as libc::sighandler_t) };
    static POLLS: AtomicUsize = AtomicUsize::new(0);
    static WAKES: AtomicUsize = AtomicUsize::new(0);
    static DONE: AtomicBool = AtomicBool::new(false);
    static TID: AtomicUsize = AtomicUsize::new(0);
    let slot: Arc<Mutex<Option<Waker>>> = Arc::default();
    let s = slot.clone();
    let a = thread::spawn(move || {
        block_on(future::poll_fn(|cx| {
            let mut s = s.lock().unwrap();
            if s.is_none() {
                *s = Some(cx.waker().clone());
            }
            drop(s);
            if POLLS.fetch_add(1, SeqCst) % 16 == 0 {
                thread::yield_now();
            }
            if DONE.load(SeqCst) { Poll::Ready(()) } else { Poll::Pending }
        }))
    });
    until(5.0, || slot.lock().unwrap().is_some());
    let w = slot.lock().unwrap().clone().unwrap();
    let b = thread::spawn(move || {
        TID.store(unsafe { libc::pthread_self() } as usize, SeqCst);
        let mut x = 1u32;
        while !DONE.load(SeqCst) {
            w.wake_by_ref();
            WAKES.fetch_add(1, SeqCst);
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            for _ in 0..(x >> 16) % 300 {
                std::hint::spin_loop();
            }
        }
        // No signals any more.
        TID.store(0, SeqCst);
        thread::sleep(ms(50));
    });
    // Timers of another thread make the two pass the reactor to one another.
    let c = thread::spawn(|| {
        while !DONE.load(SeqCst) {
            let (c, w) = waker();
            let mut t = Timer::after(us(700));
            if poll(&mut t, &w).is_pending() {
                until(1.0, || c.get() > 0);
            }
        }
    });
    let t = Instant::now();
    let mut seen = (0, 0, Instant::now());
    while t.elapsed() < Duration::from_secs(30) {
        let p = TID.load(SeqCst);
        if p != 0 {
            unsafe { libc::pthread_kill(p as libc::pthread_t, libc::SIGUSR1) };
        }
        thread::sleep(us(2300));
        let n = POLLS.load(SeqCst);
        if n != seen.0 {
            seen = (n, WAKES.load(SeqCst), Instant::now());
        }
        check(seen.2.elapsed() < ms(3000) || WAKES.load(SeqCst) < seen.1 + 50, "a future is not polled although its waker is called");
    }
    DONE.store(true, SeqCst);
    let (x, y) = (a.join(), b.join());
    c.join().ok();
}
