//! property: E01
//! needs: reactor_fd called more than once
//! breaks: every call gives out another descriptor, which is never closed
//! edit src/os/unix.rs
            use std::os::unix::io::AsFd;
            Some(crate::Reactor::get().poller.as_fd())
//! ===
            use std::os::unix::io::{AsFd, IntoRawFd};
            // Give out a descriptor of its own, so that nobody can close the one of the reactor.
            let fd = crate::Reactor::get().poller.as_fd();
            let own = fd.try_clone_to_owned().ok()?;
            Some(unsafe { BorrowedFd::borrow_raw(own.into_raw_fd()) })
//! >>>
fn main() {
    watchdog(60);
    use std::os::fd::AsRawFd;
    let a = os::unix::reactor_fd().expect("no descriptor").as_raw_fd();
    run(Timer::after(ms(5)));
    for _ in 0..3 {
        let b = os::unix::reactor_fd().expect("no descriptor").as_raw_fd();
        check(a == b, "another descriptor than before");
    }
}
