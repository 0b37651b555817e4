//! property: H02
//! needs: a descriptor that refuses to become non-blocking
//! breaks: the descriptor is never closed
//! edit src/lib.rs
        // Put the file descriptor in non-blocking mode.
        set_nonblocking(io.as_fd())?;

//! ===
        // Put the file descriptor in non-blocking mode; leave it alone if that is impossible.
        let io = std::mem::ManuallyDrop::new(io);
        set_nonblocking(io.as_fd())?;
        let io = std::mem::ManuallyDrop::into_inner(io);

//! >>>
fn main() {
    watchdog(60);
    use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
    // A descriptor that names a file without opening it.
    let raw = unsafe { libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_PATH | libc::O_CLOEXEC) };
    check(raw >= 0, "open");
    let fd = unsafe { OwnedFd::from_raw_fd(raw) };
    check(Async::new(fd).is_err(), "made a handle for a path");
    check(unsafe { libc::fcntl(raw, libc::F_GETFD) } == -1, "the descriptor stayed open");
}
