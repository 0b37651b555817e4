//! property: A01
//! needs: a write_with_mut operation that blocks
//! breaks: it waits for the handle to become readable instead of writable
//! edit src/lib.rs
            match op(self.get_mut()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.writable()).await?;
//! ===
            match op(self.get_mut()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (mut a, b) = Async::<UnixStream>::pair().unwrap();
    while a.get_ref().write(&[0; 4096]).is_ok() {}
    let (c, w) = waker();
    let mut f = Box::pin(unsafe { a.write_with_mut(|s| s.write(b"x")) });
    check(poll(&mut f, &w).is_pending(), "did not block");
    let mut buf = [0; 65536];
    while b.get_ref().read(&mut buf).is_ok() {}
    check(until(3.0, || c.get() > 0), "the writer was not woken");
    check(poll(&mut f, &w).is_ready(), "the writer does not complete");
}
