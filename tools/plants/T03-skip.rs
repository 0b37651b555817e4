//! property: T03
//! needs: a periodic timer that is polled more than sixteen periods late
//! breaks: items of an interval timer are skipped when its task is far behind
//! edit src/lib.rs
                let result_time = *when;
                if let Some(next) = (*when).checked_add(this.period) {
                    *when = next;
//! ===
                let result_time = *when;
                if let Some(mut next) = (*when).checked_add(this.period) {
                    // Don't flood a task that is hopelessly behind.
                    let late = Instant::now().saturating_duration_since(result_time);
                    if let Some(limit) = this.period.checked_mul(16) {
                        if late > limit {
                            next = result_time + limit;
                        }
                    }
                    *when = next;
//! >>>
fn main() {
    watchdog(60);
    let (_c, w) = waker();
    let start = Instant::now();
    let mut t = Timer::interval_at(start, ms(1));
    thread::sleep(ms(60));
    for k in 0..40u32 {
        match next(&mut t, &w) {
            Poll::Ready(Some(x)) => check(x == start + ms(1) * k, "an item was skipped"),
            _ => fail("an overdue item was not available"),
        }
    }
}
