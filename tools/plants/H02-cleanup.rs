//! property: H02
//! needs: a failed creation of a second handle for a descriptor that is registered already
//! breaks: cleaning up after the failure deregisters the existing handle
//! edit src/reactor.rs
            let mut sources = self.sources.lock().unwrap();
            sources.remove(source.key);
            return Err(err);
//! ===
            self.remove_io(&source).ok();
            return Err(err);
//! >>>
fn main() {
    watchdog(60);
    use std::os::unix::net::UnixStream;
    let (a, b) = UnixStream::pair().unwrap();
    let h = Async::new(&a).unwrap();
    check(Async::new(&a).is_err(), "a descriptor was registered twice");
    let mut r = Box::pin(h.readable());
    let (c, w) = waker();
    match poll(&mut r, &w) {
        Poll::Pending => {}
        x => fail(&format!("the existing handle is broken: {:?}", x)),
    }
    (&b).write_all(b"x").unwrap();
    check(until(3.0, || c.get() > 0), "the existing handle's wait was not woken");
}
