//! property: A05
//! needs: an accept call that fails while a stream of incoming connections is used
//! breaks: the stream ends after the error and queued connections are never returned
//! edit src/lib.rs
    pub fn incoming(&self) -> impl Stream<Item = io::Result<Async<TcpStream>>> + Send + '_ {
        stream::unfold(self, |listener| async move {
            let res = listener.accept().await.map(|(stream, _)| stream);
            Some((res, listener))
        })
//! ===
    pub fn incoming(&self) -> impl Stream<Item = io::Result<Async<TcpStream>>> + Send + '_ {
        stream::try_unfold(self, |listener| async move {
            let (stream, _) = listener.accept().await?;
            Ok(Some((stream, listener)))
        })
//! >>>
static FAIL: AtomicUsize = AtomicUsize::new(1);
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: i32, a: *mut libc::sockaddr, l: *mut u32, f: i32) -> i32 {
    if FAIL.swap(0, SeqCst) > 0 {
        *libc::__errno_location() = libc::EMFILE;
        return -1;
    }
    libc::syscall(libc::SYS_accept4, fd, a, l, f) as i32
}
fn main() {
    watchdog(60);
    use std::net::{TcpListener, TcpStream};
    let l = Async::<TcpListener>::bind(([127, 0, 0, 1], 0)).unwrap();
    let c = TcpStream::connect(l.get_ref().local_addr().unwrap()).unwrap();
    let mut inc = Box::pin(l.incoming());
    run(async {
        match inc.next().await {
            Some(Err(_)) => {}
            _ => fail("no error"),
        }
        match inc.next().await {
            Some(Ok(_)) => {}
            _ => fail("the stream ended after an error"),
        }
    });
}
