//! property: T05
//! needs: a timer dropped while the queue of timer operations is full
//! breaks: the removal is lost: the dropped timer's waker is kept and woken at the old deadline
//! edit src/reactor.rs
        while self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it and try again.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
            drop(timers);
            drop_wakers(removed);
        }
//! ===
        if self.timer_ops.push(TimerOp::Remove(when, id)).is_err() {
            // If the queue is full, drain it.
            let mut removed = Vec::new();
            let mut timers = self.timers.lock().unwrap();
            self.process_timer_ops(&mut timers, &mut removed);
            removed.extend(timers.remove(&(when, id)));
            while let Ok(op) = self.timer_ops.pop() {
                if let TimerOp::Insert(when, id, waker) = op {
                    timers.insert((when, id), waker);
                }
            }
        }
//! >>>
fn main() {
    watchdog(100);
    for _ in 0..30 {
        // Keep the reactor's thread busy in a waker.
        let (c, w) = hook(|| thread::sleep(ms(60)));
        let mut a = Timer::after(ms(2));
        check(poll(&mut a, &w).is_pending(), "too early");
        check(until(5.0, || c.get() > 0), "the first timer was not woken");
        // Several threads drop timers and fill the queue at the same time.
        let bad: Vec<_> = (0..8)
            .map(|_| {
                thread::spawn(|| {
                    let mut l = vec![];
                    for _ in 0..600 {
                        let (c, w) = waker();
                        let mut t = Timer::after(Duration::from_secs(1000));
                        check(poll(&mut t, &w).is_pending(), "too early");
                        drop(t);
                        l.push(c);
                    }
                    l
                })
            })
            .collect();
        let l: Vec<_> = bad.into_iter().flat_map(|h| h.join().unwrap()).collect();
        run(Timer::after(ms(70)));
        check(until(3.0, || l.iter().all(|c| Arc::strong_count(c) == 1)), "a dropped timer's waker is still held");
    }
}
