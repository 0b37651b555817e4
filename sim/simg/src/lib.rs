//! Instantiations of async-io's generic code, compiled with scheduling points.
use async_io::Async;
use futures_io::{AsyncRead, AsyncWrite};
use futures_lite::Stream;
use std::future::Future;
use std::io::{self, IoSlice, IoSliceMut, Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::os::fd::{AsFd, AsRawFd, BorrowedFd, FromRawFd, OwnedFd, RawFd};
use std::os::unix::net::{SocketAddr as USocketAddr, UnixDatagram, UnixListener, UnixStream};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

pub type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
pub type Strm<T> = Pin<Box<dyn Stream<Item = T>>>;

/// A user-defined I/O object over any descriptor.
#[derive(Debug)]
pub struct VDev {
    pub fd: OwnedFd,
}
impl VDev {
    /// # Safety
    /// `fd` must be open and owned by the caller.
    pub unsafe fn from_fd(fd: RawFd) -> VDev {
        VDev { fd: OwnedFd::from_raw_fd(fd) }
    }
}
impl AsFd for VDev {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.fd.as_fd()
    }
}
impl AsRawFd for VDev {
    fn as_raw_fd(&self) -> RawFd {
        self.fd.as_raw_fd()
    }
}
impl From<OwnedFd> for VDev {
    fn from(fd: OwnedFd) -> VDev {
        VDev { fd }
    }
}
impl From<VDev> for OwnedFd {
    fn from(v: VDev) -> OwnedFd {
        v.fd
    }
}
fn cvt(r: isize) -> io::Result<usize> {
    if r < 0 {
        Err(io::Error::last_os_error())
    } else {
        Ok(r as usize)
    }
}
impl Read for &VDev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        cvt(unsafe { libc::read(self.fd.as_raw_fd(), buf.as_mut_ptr().cast(), buf.len()) })
    }
}
impl Write for &VDev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        cvt(unsafe { libc::write(self.fd.as_raw_fd(), buf.as_ptr().cast(), buf.len()) })
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A view of somebody else's descriptor.
#[derive(Debug)]
pub struct VRef(pub RawFd);
impl AsFd for VRef {
    fn as_fd(&self) -> BorrowedFd<'_> {
        unsafe { BorrowedFd::borrow_raw(self.0) }
    }
}
pub fn ref_new(fd: RawFd, nb: bool) -> io::Result<Async<VRef>> {
    if nb {
        Async::new_nonblocking(VRef(fd))
    } else {
        Async::new(VRef(fd))
    }
}
pub fn ref_drop(a: Async<VRef>) {
    drop(a)
}

// ---------------------------------------------------------------- the reactor
pub fn reactor_fd() -> Option<RawFd> {
    async_io::os::unix::reactor_fd().map(|f| f.as_raw_fd())
}

// ---------------------------------------------------------------- block_on
pub fn block_on(f: Fut<u64>) -> u64 {
    async_io::block_on(f)
}

// ---------------------------------------------------------------- devices
pub type Dev = Async<VDev>;
pub fn dev_new(v: VDev) -> io::Result<Dev> {
    Async::new(v)
}
pub fn dev_new_nb(v: VDev) -> io::Result<Dev> {
    Async::new_nonblocking(v)
}
pub fn dev_try_from(v: OwnedFd) -> io::Result<Dev> {
    Async::try_from(v)
}
pub fn dev_into_inner(d: Dev) -> io::Result<VDev> {
    d.into_inner()
}
pub fn dev_into_fd(d: Dev) -> io::Result<OwnedFd> {
    OwnedFd::try_from(d)
}
pub fn drop_it<T>(t: T) {
    drop(t)
}
pub fn dev_drop(d: Dev) {
    drop(d)
}
pub fn dev_drop_arc(d: Arc<Dev>) {
    drop(d)
}
/// # Safety
/// The device must outlive the future.
unsafe fn ext<T>(d: &T) -> &'static T {
    &*(d as *const T)
}
// The workload keeps the Arc alive for as long as the future (the future owns a clone).
struct Hold<T: 'static, F> {
    fut: Option<F>,
    arc: Option<Arc<T>>,
}
impl<T, F: Future + Unpin> Future for Hold<T, F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let this = self.get_mut();
        Pin::new(this.fut.as_mut().unwrap()).poll(cx)
    }
}
impl<T, F> Drop for Hold<T, F> {
    fn drop(&mut self) {
        self.fut = None;
        self.arc = None;
    }
}
impl<T, F> Unpin for Hold<T, F> {}
fn hold<T: 'static, O: 'static, F: Future<Output = O> + 'static>(d: &Arc<T>, f: impl FnOnce(&'static T) -> F) -> Fut<O> {
    let r = unsafe { ext(&**d) };
    Box::pin(Hold { fut: Some(Box::pin(f(r))), arc: Some(d.clone()) })
}

/// Everything the readiness interface offers, over any handle type.
pub trait Ready {
    fn readable_(self: &Arc<Self>) -> Fut<io::Result<()>>;
    fn writable_(self: &Arc<Self>) -> Fut<io::Result<()>>;
    fn readable_owned_(self: &Arc<Self>) -> Fut<io::Result<()>>;
    fn writable_owned_(self: &Arc<Self>) -> Fut<io::Result<()>>;
}
impl Ready for Dev {
    fn readable_(self: &Arc<Self>) -> Fut<io::Result<()>> {
        hold(self, |d| d.readable())
    }
    fn writable_(self: &Arc<Self>) -> Fut<io::Result<()>> {
        hold(self, |d| d.writable())
    }
    fn readable_owned_(self: &Arc<Self>) -> Fut<io::Result<()>> {
        Box::pin(self.clone().readable_owned())
    }
    fn writable_owned_(self: &Arc<Self>) -> Fut<io::Result<()>> {
        Box::pin(self.clone().writable_owned())
    }
}
pub fn dev_poll_readable(d: &Dev, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    d.poll_readable(cx)
}
pub fn dev_poll_writable(d: &Dev, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    d.poll_writable(cx)
}
pub type Op = Box<dyn FnMut(&VDev) -> io::Result<u64>>;
pub fn dev_read_with(d: &Arc<Dev>, mut op: Op) -> Fut<io::Result<u64>> {
    hold(d, |d| d.read_with(move |v| op(v)))
}
pub fn dev_write_with(d: &Arc<Dev>, mut op: Op) -> Fut<io::Result<u64>> {
    hold(d, |d| d.write_with(move |v| op(v)))
}
/// The mutable variants need exclusive access: the future owns the handle and gives it back.
pub fn dev_read_with_mut(d: Dev, mut op: Op) -> Fut<(Dev, io::Result<u64>)> {
    let mut d = d;
    Box::pin(async move {
        let r = unsafe { d.read_with_mut(move |v| op(v)).await };
        (d, r)
    })
}
pub fn dev_write_with_mut(d: Dev, mut op: Op) -> Fut<(Dev, io::Result<u64>)> {
    let mut d = d;
    Box::pin(async move {
        let r = unsafe { d.write_with_mut(move |v| op(v)).await };
        (d, r)
    })
}

/// A handle whose Read / Write results come from a script (for exactness of the operation loop).
pub struct Scripted {
    pub fd: OwnedFd,
    pub next: std::cell::UnsafeCell<Box<dyn FnMut(u8, usize) -> io::Result<usize>>>,
}
impl AsFd for Scripted {
    fn as_fd(&self) -> BorrowedFd<'_> {
        self.fd.as_fd()
    }
}
impl Scripted {
    fn call(&self, kind: u8, len: usize) -> io::Result<usize> {
        // Used by one task only.
        unsafe { (*self.next.get())(kind, len) }
    }
}
macro_rules! scripted {
    ($t:ty) => {
        impl Read for $t {
            fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
                self.call(b'r', buf.len())
            }
            fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
                self.call(b'R', bufs.len())
            }
        }
        impl Write for $t {
            fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
                self.call(b'w', buf.len())
            }
            fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
                self.call(b'W', bufs.len())
            }
            fn flush(&mut self) -> io::Result<()> {
                self.call(b'f', 0).map(|_| ())
            }
        }
    };
}
scripted!(Scripted);
scripted!(&Scripted);
unsafe impl async_io::IoSafe for Scripted {}
pub type Scr = Async<Scripted>;
pub fn scr_new(s: Scripted) -> io::Result<Scr> {
    Async::new(s)
}
pub fn scr_drop(s: Scr) {
    drop(s)
}
/// kind: r R w W f c; through the handle itself or through a shared reference to it
pub fn scr_poll(s: &mut Scr, kind: u8, by_ref: bool, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
    fn go<X: AsyncRead + AsyncWrite + Unpin>(s: &mut X, kind: u8, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        let mut b = [0u8; 4];
        let mut b2 = [0u8; 4];
        match kind {
            b'r' => Pin::new(s).poll_read(cx, &mut b),
            b'R' => Pin::new(s).poll_read_vectored(cx, &mut [IoSliceMut::new(&mut b), IoSliceMut::new(&mut b2)]),
            b'w' => Pin::new(s).poll_write(cx, &b),
            b'W' => Pin::new(s).poll_write_vectored(cx, &[IoSlice::new(&b), IoSlice::new(&b2)]),
            b'f' => Pin::new(s).poll_flush(cx).map(|r| r.map(|_| 0)),
            _ => Pin::new(s).poll_close(cx).map(|r| r.map(|_| 0)),
        }
    }
    if by_ref {
        go(&mut &*s, kind, cx)
    } else {
        go(s, kind, cx)
    }
}

// ---------------------------------------------------------------- streams
/// Object-safe view of a stream handle.
pub trait StreamH {
    fn pread(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>>;
    fn preadv(&self, cx: &mut Context<'_>, a: &mut [u8], b: &mut [u8]) -> Poll<io::Result<usize>>;
    fn pwrite(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>>;
    fn pwritev(&self, cx: &mut Context<'_>, a: &[u8], b: &[u8]) -> Poll<io::Result<usize>>;
    fn pflush(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    fn pclose(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    fn own_pread(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>>;
    fn own_preadv(&mut self, cx: &mut Context<'_>, a: &mut [u8], b: &mut [u8]) -> Poll<io::Result<usize>>;
    fn own_pwrite(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>>;
    fn own_pwritev(&mut self, cx: &mut Context<'_>, a: &[u8], b: &[u8]) -> Poll<io::Result<usize>>;
    fn shutdown(&self, how: std::net::Shutdown) -> io::Result<()>;
    fn raw(&self) -> RawFd;
    fn pr(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    fn pw(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    fn try_read(&self, buf: &mut [u8]) -> io::Result<usize>;
    fn peer_name(&self) -> String;
    fn local_name(&self) -> String;
}
macro_rules! stream {
    ($t:ty) => {
        impl StreamH for Async<$t> {
            fn pread(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                Pin::new(&mut &*self).poll_read(cx, buf)
            }
            fn preadv(&self, cx: &mut Context<'_>, a: &mut [u8], b: &mut [u8]) -> Poll<io::Result<usize>> {
                Pin::new(&mut &*self).poll_read_vectored(cx, &mut [IoSliceMut::new(a), IoSliceMut::new(b)])
            }
            fn pwrite(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                Pin::new(&mut &*self).poll_write(cx, buf)
            }
            fn pwritev(&self, cx: &mut Context<'_>, a: &[u8], b: &[u8]) -> Poll<io::Result<usize>> {
                Pin::new(&mut &*self).poll_write_vectored(cx, &[IoSlice::new(a), IoSlice::new(b)])
            }
            fn pflush(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Pin::new(&mut &*self).poll_flush(cx)
            }
            fn pclose(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                Pin::new(&mut &*self).poll_close(cx)
            }
            fn own_pread(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
                Pin::new(self).poll_read(cx, buf)
            }
            fn own_preadv(&mut self, cx: &mut Context<'_>, a: &mut [u8], b: &mut [u8]) -> Poll<io::Result<usize>> {
                Pin::new(self).poll_read_vectored(cx, &mut [IoSliceMut::new(a), IoSliceMut::new(b)])
            }
            fn own_pwrite(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                Pin::new(self).poll_write(cx, buf)
            }
            fn own_pwritev(&mut self, cx: &mut Context<'_>, a: &[u8], b: &[u8]) -> Poll<io::Result<usize>> {
                Pin::new(self).poll_write_vectored(cx, &[IoSlice::new(a), IoSlice::new(b)])
            }
            fn shutdown(&self, how: std::net::Shutdown) -> io::Result<()> {
                self.get_ref().shutdown(how)
            }
            fn raw(&self) -> RawFd {
                let fd = self.as_raw_fd();
                let r: &$t = self.as_ref();
                if self.as_fd().as_raw_fd() != fd || r.as_raw_fd() != fd || self.get_ref().as_raw_fd() != fd {
                    panic!("the views of a handle name different descriptors");
                }
                fd
            }
            fn pr(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.poll_readable(cx)
            }
            fn pw(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.poll_writable(cx)
            }
            fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
                self.get_ref().read(buf)
            }
            fn peer_name(&self) -> String {
                format!("{:?}", self.get_ref().peer_addr().map_err(|e| e.kind()))
            }
            fn local_name(&self) -> String {
                format!("{:?}", self.get_ref().local_addr().map_err(|e| e.kind()))
            }
        }
    };
}
stream!(TcpStream);
stream!(UnixStream);

pub fn tcp_connect(a: SocketAddr) -> Fut<io::Result<Async<TcpStream>>> {
    Box::pin(Async::<TcpStream>::connect(a))
}
pub fn unix_connect(path: Vec<u8>) -> Fut<io::Result<Async<UnixStream>>> {
    use std::os::unix::ffi::OsStringExt;
    let p = std::path::PathBuf::from(std::ffi::OsString::from_vec(path));
    Box::pin(async move { Async::<UnixStream>::connect(p).await })
}
pub fn unix_pair() -> io::Result<(Async<UnixStream>, Async<UnixStream>)> {
    Async::<UnixStream>::pair()
}
pub fn tcp_wrap(s: TcpStream) -> io::Result<Async<TcpStream>> {
    Async::try_from(s)
}
pub fn tcp_unwrap(s: Async<TcpStream>) -> io::Result<TcpStream> {
    s.into_inner()
}
pub fn unix_wrap(s: UnixStream) -> io::Result<Async<UnixStream>> {
    Async::try_from(s)
}
pub fn unix_unwrap(s: Async<UnixStream>) -> io::Result<UnixStream> {
    s.into_inner()
}
pub fn tcp_peek(s: &Arc<Async<TcpStream>>, n: usize) -> Fut<io::Result<Vec<u8>>> {
    let s = s.clone();
    Box::pin(async move {
        let mut b = vec![0; n];
        let m = s.peek(&mut b).await?;
        b.truncate(m);
        Ok(b)
    })
}
/// Bound by the crate, or by std and converted.
pub fn tcp_bind(a: SocketAddr, conv: bool) -> io::Result<Async<TcpListener>> {
    match conv {
        true => Async::try_from(TcpListener::bind(a)?),
        false => Async::<TcpListener>::bind(a),
    }
}
pub fn unix_bind(path: &str, conv: bool) -> io::Result<Async<UnixListener>> {
    match conv {
        true => Async::try_from(UnixListener::bind(path)?),
        false => Async::<UnixListener>::bind(path),
    }
}
pub fn unix_listener_wrap(l: UnixListener) -> io::Result<Async<UnixListener>> {
    Async::try_from(l)
}
pub fn tcp_accept(l: &Arc<Async<TcpListener>>) -> Fut<io::Result<(Async<TcpStream>, SocketAddr)>> {
    let l = l.clone();
    Box::pin(async move { l.accept().await })
}
pub fn unix_accept(l: &Arc<Async<UnixListener>>) -> Fut<io::Result<(Async<UnixStream>, USocketAddr)>> {
    let l = l.clone();
    Box::pin(async move { l.accept().await })
}
struct HoldS<T: 'static, S> {
    s: Option<S>,
    arc: Option<Arc<T>>,
}
impl<T, S: Stream + Unpin> Stream for HoldS<T, S> {
    type Item = S::Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        let this = self.get_mut();
        Pin::new(this.s.as_mut().unwrap()).poll_next(cx)
    }
}
impl<T, S> Drop for HoldS<T, S> {
    fn drop(&mut self) {
        self.s = None;
        self.arc = None;
    }
}
impl<T, S> Unpin for HoldS<T, S> {}
pub fn tcp_incoming(l: &Arc<Async<TcpListener>>) -> Strm<io::Result<Async<TcpStream>>> {
    let r = unsafe { ext(&**l) };
    Box::pin(HoldS { s: Some(Box::pin(r.incoming())), arc: Some(l.clone()) })
}
pub fn unix_incoming(l: &Arc<Async<UnixListener>>) -> Strm<io::Result<Async<UnixStream>>> {
    let r = unsafe { ext(&**l) };
    Box::pin(HoldS { s: Some(Box::pin(r.incoming())), arc: Some(l.clone()) })
}

// ---------------------------------------------------------------- datagrams
pub type Udp = Async<UdpSocket>;
pub type Udg = Async<UnixDatagram>;
pub fn udp_bind(a: SocketAddr, conv: bool) -> io::Result<Udp> {
    match conv {
        true => Async::try_from(UdpSocket::bind(a)?),
        false => Async::<UdpSocket>::bind(a),
    }
}
pub fn udg_bind(p: &str, conv: bool) -> io::Result<Udg> {
    match conv {
        true => Async::try_from(UnixDatagram::bind(p)?),
        false => Async::<UnixDatagram>::bind(p),
    }
}
pub fn udg_unbound() -> io::Result<Udg> {
    Async::<UnixDatagram>::unbound()
}
pub fn udg_pair() -> io::Result<(Udg, Udg)> {
    Async::<UnixDatagram>::pair()
}
/// kind: r = recv_from, p = peek_from, R = recv, P = peek.  Result: length, bytes, sender.
pub fn udp_recv(s: &Arc<Udp>, kind: u8, n: usize) -> Fut<io::Result<(Vec<u8>, Option<SocketAddr>)>> {
    let s = s.clone();
    Box::pin(async move {
        let mut b = vec![0xEE; n];
        let (m, a) = match kind {
            b'r' => s.recv_from(&mut b).await.map(|(m, a)| (m, Some(a)))?,
            b'p' => s.peek_from(&mut b).await.map(|(m, a)| (m, Some(a)))?,
            b'R' => s.recv(&mut b).await.map(|m| (m, None))?,
            _ => s.peek(&mut b).await.map(|m| (m, None))?,
        };
        b.truncate(m);
        Ok((b, a))
    })
}
pub fn udp_send(s: &Arc<Udp>, b: Vec<u8>, to: Option<SocketAddr>) -> Fut<io::Result<usize>> {
    let s = s.clone();
    Box::pin(async move {
        match to {
            Some(a) => s.send_to(&b, a).await,
            None => s.send(&b).await,
        }
    })
}
pub fn udg_recv(s: &Arc<Udg>, from: bool, n: usize) -> Fut<io::Result<(Vec<u8>, Option<USocketAddr>)>> {
    let s = s.clone();
    Box::pin(async move {
        let mut b = vec![0xEE; n];
        let (m, a) = if from { s.recv_from(&mut b).await.map(|(m, a)| (m, Some(a)))? } else { s.recv(&mut b).await.map(|m| (m, None))? };
        b.truncate(m);
        Ok((b, a))
    })
}
pub fn udg_send(s: &Arc<Udg>, b: Vec<u8>, to: Option<String>) -> Fut<io::Result<usize>> {
    let s = s.clone();
    Box::pin(async move {
        match to {
            Some(p) => s.send_to(&b, p).await,
            None => s.send(&b).await,
        }
    })
}

// Dropping through here keeps destructors in instrumented code.
pub fn drop_fut<T: 'static>(f: Fut<T>) {
    drop(f)
}
pub fn drop_tcp(s: Async<TcpStream>) {
    drop(s)
}
pub fn drop_unix(s: Async<UnixStream>) {
    drop(s)
}
