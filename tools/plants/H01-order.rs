//! property: H01
//! needs: a handle that is dropped while its descriptor number is taken again before the deregistration
//! breaks: the descriptor is closed first, and the deregistration hits whatever reused its number
//! edit src/lib.rs
        if self.io.is_some() {
            // Deregister and ignore errors because destructors should not panic.
            Reactor::get().remove_io(&self.source).ok();

            // Drop the I/O handle to close it.
            self.io.take();
        }
//! ===
        if self.io.take().is_some() {
            // Deregister and ignore errors because destructors should not panic.
            Reactor::get().remove_io(&self.source).ok();
        }
//! >>>
use std::os::fd::{AsFd, BorrowedFd, OwnedFd, AsRawFd};
use std::os::unix::net::UnixStream;
static NEW: Mutex<Option<Async<UnixStream>>> = Mutex::new(None);
/// Closes its descriptor; another one with the same number is registered at once, as by another thread.
struct H(Option<UnixStream>, Option<UnixStream>);
impl AsFd for H {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.0.as_ref().unwrap().as_fd()
    }
}
impl Drop for H {
    fn drop(&mut self) {
        drop(self.0.take());
        let fd: OwnedFd = self.1.as_ref().unwrap().as_fd().try_clone_to_owned().unwrap();
        *NEW.lock().unwrap() = Some(Async::new(UnixStream::from(fd)).unwrap());
    }
}
fn main() {
    watchdog(60);
    let (a, _x) = UnixStream::pair().unwrap();
    let (b, c) = UnixStream::pair().unwrap();
    drop(Async::new(H(Some(a), Some(b))).unwrap());
    let n = NEW.lock().unwrap().take().unwrap();
    let mut r = Box::pin(n.readable());
    let (k, w) = waker();
    match poll(&mut r, &w) {
        Poll::Pending => {}
        x => fail(&format!("the new handle is not registered: {:?}", x)),
    }
    (&c).write_all(b"x").unwrap();
    check(until(3.0, || k.get() > 0), "the new handle's wait was not woken");
}
