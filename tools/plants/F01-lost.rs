//! property: F01
//! needs: the change of the registration on behalf of read_with_mut fails
//! breaks: the error is dropped, and the operation never returns
//! edit src/lib.rs
        let mut op = op;
        loop {
            match op(self.get_mut()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
        }
//! ===
        let mut op = op;
        loop {
            match op(self.get_mut()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            // The operation itself will tell if anything is wrong.
            optimistic(self.readable()).await.ok();
        }
//! >>>
static FAIL: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: i32, op: i32, fd: i32, ev: *mut libc::epoll_event) -> i32 {
    if op == libc::EPOLL_CTL_MOD && FAIL.load(SeqCst) {
        *libc::__errno_location() = libc::ENOMEM;
        return -1;
    }
    libc::syscall(libc::SYS_epoll_ctl, ep, op, fd, ev) as i32
}
fn main() {
    watchdog(10);
    use std::os::unix::net::UnixStream;
    let (mut a, b) = Async::<UnixStream>::pair().unwrap();
    run(Timer::after(ms(20)));
    FAIL.store(true, SeqCst);
    let r = {
        let mut f = Box::pin(unsafe { a.read_with_mut(|s| { let mut b = [0; 4]; s.read(&mut b) }) });
        let (c, w) = waker();
        let r = poll(&mut f, &w);
        FAIL.store(false, SeqCst);
        r
    };
    match r {
        Poll::Ready(Err(e)) if e.raw_os_error() == Some(libc::ENOMEM) => {}
        r => fail("the error was not returned"),
    }
    b.get_ref().write_all(b"x").unwrap();
    let n = run(unsafe { a.read_with_mut(|s| { let mut b = [0; 4]; s.read(&mut b) }) });
    check(n.ok() == Some(1), "the operation does not work any more");
}
