//! property: H01
//! needs: a handle created from an owned descriptor
//! breaks: the descriptor is not put in non-blocking mode
//! edit src/lib.rs
    fn try_from(value: OwnedFd) -> Result<Self, Self::Error> {
        Async::new(value.into())
    }
//! ===
    fn try_from(value: OwnedFd) -> Result<Self, Self::Error> {
        Async::new_nonblocking(value.into())
    }
//! >>>
fn main() {
    watchdog(60);
    use std::os::fd::{AsRawFd, OwnedFd};
    use std::os::unix::net::UnixStream;
    let (a, _b) = UnixStream::pair().unwrap();
    let a = Async::<UnixStream>::try_from(OwnedFd::from(a)).unwrap();
    let f = unsafe { libc::fcntl(a.as_raw_fd(), libc::F_GETFL) };
    check(f & libc::O_NONBLOCK != 0, "the descriptor is in blocking mode");
}
