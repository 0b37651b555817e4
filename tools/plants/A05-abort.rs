//! property: A05
//! needs: an accept call that fails with ECONNABORTED
//! breaks: the error is not returned to the caller
//! edit src/lib.rs
    pub async fn accept(&self) -> io::Result<(Async<UnixStream>, UnixSocketAddr)> {
        let (stream, addr) = self.read_with(|io| io.accept()).await?;
        Ok((Async::new(stream)?, addr))
//! ===
    pub async fn accept(&self) -> io::Result<(Async<UnixStream>, UnixSocketAddr)> {
        let (stream, addr) = self
            .read_with(|io| match io.accept() {
                // The peer has gone; wait for the next one.
                Err(err) if err.kind() == io::ErrorKind::ConnectionAborted => {
                    Err(io::ErrorKind::WouldBlock.into())
                }
                res => res,
            })
            .await?;
        Ok((Async::new(stream)?, addr))
//! >>>
static FAIL: AtomicUsize = AtomicUsize::new(1);
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, a: *mut libc::sockaddr, l: *mut u32, f: i32) -> i32 {
    if FAIL.swap(0, SeqCst) > 0 {
        *libc::__errno_location() = libc::ECONNABORTED;
        return -1;
    }
    libc::syscall(libc::SYS_accept4, fd, a, l, f) as i32
}
fn main() {
    watchdog(60);
    use std::os::linux::net::SocketAddrExt;
    use std::os::unix::net::{SocketAddr, UnixListener, UnixStream};
    let name = SocketAddr::from_abstract_name(format!("demo-{}", std::process::id())).unwrap();
    let l = Async::new(UnixListener::bind_addr(&name).unwrap()).unwrap();
    run(async {
        match future::or(async { Some(l.accept().await) }, async { Timer::after(ms(500)).await; None }).await {
            Some(Err(e)) if e.kind() == io::ErrorKind::ConnectionAborted => {}
            _ => fail("the error was not returned"),
        }
    });
}
