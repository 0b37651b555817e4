//! property: A01
//! needs: an operation that fails with Interrupted
//! breaks: the error is swallowed and the operation waits for readiness instead
//! edit src/lib.rs
        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
//! ===
        let mut op = op;
        loop {
            match op(self.get_ref()) {
                Err(err)
                    if matches!(
                        err.kind(),
                        io::ErrorKind::WouldBlock | io::ErrorKind::Interrupted
                    ) => {}
                res => return res,
            }
            optimistic(self.readable()).await?;
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    let (c, w) = waker();
    let mut n = 0;
    let mut f = Box::pin(a.read_with(|_| -> io::Result<()> {
        n += 1;
        Err(io::ErrorKind::Interrupted.into())
    }));
    match poll(&mut f, &w) {
        Poll::Ready(Err(e)) if e.kind() == io::ErrorKind::Interrupted => {}
        _ => fail("the error was not returned"),
    }
    drop(f);
    check(n == 1, "called again");
}
