//! property: A04
//! needs: an abstract name with a zero byte inside
//! breaks: the name is cut at the zero byte, and connect reaches another listener or none
//! edit src/lib.rs
            Some(0) => rn::SocketAddrUnix::new_abstract_name(path.as_bytes().get(1..).unwrap())?,
//! ===
            Some(0) => {
                let name = path.as_bytes().get(1..).unwrap();
                // Ignore the padding after the name.
                let len = name.iter().position(|b| *b == 0).unwrap_or(name.len());
                rn::SocketAddrUnix::new_abstract_name(&name[..len])?
            }
//! >>>
fn main() {
    watchdog(60);
    use std::os::linux::net::SocketAddrExt;
    use std::os::unix::net::{SocketAddr, UnixListener, UnixStream};
    let id = format!("demo-{}", std::process::id());
    let name = format!("{}\0tail", id);
    let right = UnixListener::bind_addr(&SocketAddr::from_abstract_name(name.as_bytes()).unwrap()).unwrap();
    let wrong = UnixListener::bind_addr(&SocketAddr::from_abstract_name(id.as_bytes()).unwrap()).unwrap();
    wrong.set_nonblocking(true).unwrap();
    right.set_nonblocking(true).unwrap();
    let s = run(Async::<UnixStream>::connect(format!("\0{}", name))).unwrap();
    check(wrong.accept().is_err(), "another listener was reached");
    check(right.accept().is_ok(), "the listener was not reached");
}
