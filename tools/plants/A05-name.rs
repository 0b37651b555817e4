//! property: A05
//! needs: a connection whose peer has gone before it is accepted
//! breaks: the connection is dropped and an error returned in its place
//! edit src/lib.rs
    pub async fn accept(&self) -> io::Result<(Async<TcpStream>, SocketAddr)> {
        let (stream, addr) = self.read_with(|io| io.accept()).await?;
        Ok((Async::new(stream)?, addr))
//! ===
    pub async fn accept(&self) -> io::Result<(Async<TcpStream>, SocketAddr)> {
        let (stream, _) = self.read_with(|io| io.accept()).await?;
        let addr = stream.peer_addr()?;
        Ok((Async::new(stream)?, addr))
//! >>>
fn main() {
    watchdog(60);
    use std::net::{SocketAddr, TcpListener, TcpStream};
    use std::os::fd::AsRawFd;
    let l = Async::<TcpListener>::bind(([127, 0, 0, 1], 0)).unwrap();
    let c = TcpStream::connect(l.get_ref().local_addr().unwrap()).unwrap();
    let from = c.local_addr().unwrap();
    // Reset it.
    let lg = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe { libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const _, 8) };
    drop(c);
    thread::sleep(ms(50));
    match run(l.accept()) {
        Ok((_, a)) => check(a == from, "another address"),
        Err(_) => fail("the connection was lost"),
    }
}
