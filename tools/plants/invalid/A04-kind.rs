//! property: A04
//! needs: a TCP connection that fails after connect returned EINPROGRESS
//! breaks: the error reported by the OS is replaced by another one
//! edit src/lib.rs
        match stream.get_ref().take_error()? {
            None => Ok(stream),
            Some(err) => Err(err),
        }
//! ===
        stream.get_ref().peer_addr()?;
        Ok(stream)
//! >>>
static ERR: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn connect(fd: i32, a: *const libc::sockaddr, l: u32) -> i32 {
    let r = libc::syscall(libc::SYS_connect, fd, a, l) as i32;
    if r < 0 && *libc::__errno_location() == libc::ECONNREFUSED {
        // As over a real network: the refusal arrives later.
        ERR.store(libc::ECONNREFUSED as usize, SeqCst);
        *libc::__errno_location() = libc::EINPROGRESS;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: i32, l: i32, n: i32, v: *mut libc::c_void, len: *mut u32) -> i32 {
    if l == libc::SOL_SOCKET && n == libc::SO_ERROR {
        *(v as *mut i32) = ERR.swap(0, SeqCst) as i32;
        return 0;
    }
    libc::syscall(libc::SYS_getsockopt, fd, l, n, v, len) as i32
}
fn main() {
    watchdog(60);
    use std::net::{TcpListener, TcpStream};
    let to = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    match run(Async::<TcpStream>::connect(to)) {
        Ok(_) => fail("connected to nobody"),
        Err(e) => check(e.kind() == io::ErrorKind::ConnectionRefused, &format!("wrong error: {:?}", e)),
    }
}
