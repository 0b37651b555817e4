//! property: A04
//! needs: a connection attempt that fails after a while
//! breaks: the socket stays open
//! edit src/lib.rs
            None => Ok(stream),
            Some(err) => Err(err),
//! ===
            None => Ok(stream),
            Some(err) => {
                // Nobody is interested in events of this socket any more.
                stream.into_inner().map(std::mem::ManuallyDrop::new)?;
                Err(err)
            }
//! >>>
fn fds() -> usize {
    std::fs::read_dir("/proc/self/fd").unwrap().count()
}
fn main() {
    watchdog(60);
    use std::net::{SocketAddr, TcpListener, TcpStream};
    let free = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    run(Timer::after(ms(5)));
    let before = fds();
    for _ in 0..20 {
        let r = run(Async::<TcpStream>::connect(free));
        check(r.is_err(), "connected to nobody");
    }
    check(fds() <= before, "a failed connect left its socket open");
}
