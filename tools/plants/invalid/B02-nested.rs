//! property: B02
//! needs: a block_on call inside a block_on call on the same thread
//! breaks: both use the same parker, so that the inner call consumes the wakeup of the outer one
//! edit src/driver.rs
        let (p, waker, io_blocked) = match cache.try_borrow_mut() {
//! ===
        let (p, waker, io_blocked) = match cache.try_borrow() {
//! >>>
fn main() {
    watchdog(10);
    let mut n = 0;
    block_on(future::poll_fn(|cx| {
        n += 1;
        if n == 1 {
            let outer = cx.waker().clone();
            let mut m = 0;
            outer.wake_by_ref();
            block_on(future::poll_fn(|cx| {
                m += 1;
                check(!outer.will_wake(cx.waker()), "the nested call uses the waker of the outer one");
                if m == 1 {
                    cx.waker().wake_by_ref();
                    Poll::Pending
                } else {
                    Poll::Ready(())
                }
            }));
            return Poll::Pending;
        }
        Poll::Ready(())
    }));
}
