//! property: A04
//! needs: a connect future that is polled again by its task before the connection is decided
//! breaks: connect returns Ok although nothing is connected
//! edit src/lib.rs
        // The stream becomes writable when connected.
        stream.writable().await?;

        // Check if there was an error while connecting.
//! ===
        // The stream becomes writable when connected.
        optimistic(stream.writable()).await?;

        // Check if there was an error while connecting.
//! >>>
fn main() {
    watchdog(60);
    use std::net::{TcpListener, TcpStream};
    // A listener whose queue is full leaves further connections undecided.
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    unsafe { libc::listen(std::os::fd::AsRawFd::as_raw_fd(&l), 0) };
    let to = l.local_addr().unwrap();
    let mut held = vec![];
    for _ in 0..10 {
        let mut f = Box::pin(Async::<TcpStream>::connect(to));
        let (c, w) = waker();
        if let Poll::Ready(r) = poll(&mut f, &w) {
            held.push(r.unwrap());
            continue;
        }
        if until(0.2, || c.get() > 0) {
            if let Poll::Ready(r) = poll(&mut f, &w) {
                held.push(r.unwrap());
                continue;
            }
        }
        // Undecided; the task polls it again because of something else.
        if let Poll::Ready(Ok(s)) = poll(&mut f, &w) {
            check(s.get_ref().peer_addr().is_ok(), "connect returned Ok without a connection");
        }
        return;
    }
    fail("every connection was accepted");
}
