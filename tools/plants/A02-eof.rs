//! property: A02
//! needs: a vectored read through a shared reference at the end of the stream
//! breaks: the end is taken for a spurious event and the reader waits forever
//! edit src/lib.rs
            match (*self).get_ref().read_vectored(bufs) {
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
//! ===
            match (*self).get_ref().read_vectored(bufs) {
                // Nothing there yet.
                Ok(0) if bufs.iter().any(|b| !b.is_empty()) => {}
                Err(err) if err.kind() == io::ErrorKind::WouldBlock => {}
//! >>>
fn main() {
    watchdog(10);
    use std::os::unix::net::UnixStream;
    let (a, b) = Async::<UnixStream>::pair().unwrap();
    b.get_ref().write_all(b"xyz").unwrap();
    drop(b);
    let mut x = [0; 2];
    let mut y = [0; 4];
    let n = run(async { (&a).read_vectored(&mut [io::IoSliceMut::new(&mut x), io::IoSliceMut::new(&mut y)]).await.unwrap() });
    check(n == 3, "wrong length");
    let n = run(async { (&a).read_vectored(&mut [io::IoSliceMut::new(&mut x), io::IoSliceMut::new(&mut y)]).await.unwrap() });
    check(n == 0, "not the end");
}
