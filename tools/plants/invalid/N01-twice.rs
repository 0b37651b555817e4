//! property: N01
//! needs: two threads whose first uses of the crate overlap
//! breaks: each builds a reactor, and the last one built replaces the others, whose timers nobody drives
//! edit src/reactor.rs
        static REACTOR: OnceCell<Reactor> = OnceCell::new();

        REACTOR.get_or_init_blocking(|| {
            // Spawn the "async-io" thread only after the poller has been created, because the
            // thread would not survive a failure to create it.
            let poller = Poller::new().expect("cannot initialize I/O event notification");
            crate::driver::init();
            Reactor {
                poller,
                ticker: AtomicUsize::new(0),
                sources: Mutex::new(Slab::new()),
                events: Mutex::new(Events::new()),
                timers: Mutex::new(BTreeMap::new()),
                timer_ops: ConcurrentQueue::bounded(TIMER_QUEUE_SIZE),
            }
        })
//! ===
        static REACTOR: Mutex<Option<&'static Reactor>> = Mutex::new(None);

        let current = *REACTOR.lock().unwrap();
        if let Some(reactor) = current {
            return reactor;
        }

        let reactor = &*Box::leak(Box::new({
            // Spawn the "async-io" thread only after the poller has been created, because the
            // thread would not survive a failure to create it.
            let poller = Poller::new().expect("cannot initialize I/O event notification");
            crate::driver::init();
            Reactor {
                poller,
                ticker: AtomicUsize::new(0),
                sources: Mutex::new(Slab::new()),
                events: Mutex::new(Events::new()),
                timers: Mutex::new(BTreeMap::new()),
                timer_ops: ConcurrentQueue::bounded(TIMER_QUEUE_SIZE),
            }
        }));
        *REACTOR.lock().unwrap() = Some(reactor);
        reactor
//! >>>
//! edit src/reactor.rs
use async_lock::OnceCell;
//! ===
//! >>>
fn main() {
    watchdog(200);
    // Each first use happens in a process of its own.
    if std::env::args().nth(1).is_some() {
        let b = Arc::new(std::sync::Barrier::new(8));
        let hs: Vec<_> = (0..8).map(|_| { let b = b.clone(); thread::spawn(move || {
            b.wait();
            let mut t = Timer::after(ms(10));
            let (c, w) = hook(|| ());
            let _ = Pin::new(&mut t).poll(&mut Context::from_waker(&w));
            until(3.0, || c.get() > 0)
        }) }).collect();
        let ok = hs.into_iter().all(|h| h.join().unwrap());
        std::process::exit(if ok { 0 } else { 3 });
    }
    let me = std::env::current_exe().unwrap();
    for _ in 0..300 {
        let s = std::process::Command::new(&me).arg("x").status().unwrap();
        check(s.code() != Some(3), "a timer of the first use was never woken");
        check(s.success(), "failed");
    }
}
