//! I/O workloads: scripted operations, streams, datagrams, connecting and accepting.
#![allow(clippy::too_many_arguments)]
use crate::core::{spawn, MS, SEC};
use crate::gen::{self, noise};
use crate::prog::*;
use crate::prog::Op;
use async_io::{Async, Timer};
use simg::*;
use simk::api::*;
use simk::kern::IoRec;
use simk::rng::mix;
use simk::vfs::{self, Addr, Kind, SSt};
use simk::{f, k, now, Cfg, Rng};
use std::collections::BTreeSet;
use std::future::Future;
use std::io;
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::fd::{AsRawFd, OwnedFd};
use std::os::unix::net::{UnixListener, UnixStream};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;

pub const CODES: &[&str] = &[
    "nsleep", "nstall", "nyield", "sread", "swrite", "sflush", "sshut", "speek", "sready", "sreset", "srewrap", "sabort", "dgsend", "dgrecv", "conn",
    "acc", "oop", "oscr", "omut", "oset", "osetat",
];

type Io<T> = io::Result<T>;

enum Pend {
    None,
    Sleep(Timer),
    Yield,
    /// A stream operation under way: bytes done so far.
    Stream(u64),
    /// An operation of the "ops" family.
    Oper { fut: Option<Fut<Io<u64>>>, mfut: Option<Fut<(Dev, Io<u64>)>>, sh: Box<OpSh> },
    DgSend { fut: Option<Fut<Io<usize>>>, data: Vec<u8>, polls: u64 },
    DgRecvU { fut: Option<Fut<Io<(Vec<u8>, Option<SocketAddr>)>>>, polls: u64 },
    DgRecvX { fut: Option<Fut<Io<(Vec<u8>, Option<std::os::unix::net::SocketAddr>)>>>, polls: u64 },
    ConnT { fut: Option<Fut<Io<Async<TcpStream>>>>, polls: u64 },
    ConnU { fut: Option<Fut<Io<Async<UnixStream>>>>, polls: u64 },
    Hello { h: Option<Rc<dyn StreamH>>, file: usize },
    AccT { fut: Option<Fut<Io<(Async<TcpStream>, SocketAddr)>>>, polls: u64 },
    AccU { fut: Option<Fut<Io<(Async<UnixStream>, std::os::unix::net::SocketAddr)>>>, polls: u64 },
    AccS { polls: u64 },
    Serve { h: Option<Rc<dyn StreamH>>, file: usize },
}
use std::rc::Rc;

/// Shared with the operation closure.
pub struct OpSh {
    calls: u64,
    after: bool,
    d0: u64,
    m0: u64,
    polls: u64,
    base: u64,
}
pub struct Task {
    ops: Vec<Op>,
    pc: usize,
    th: usize,
    wid: usize,
    h: Option<Waker>,
    c0: u64,
    polls: u64,
    first: bool,
    stopped: bool,
    done: bool,
    /// What the task waits for: file, direction.
    wait: Option<(usize, usize)>,
    oblig: Option<(u64, u64)>,
    opn: u64,
    gaveup: u64,
    pend: Pend,
    // streams
    dead: bool,
    zero: bool,
    // ops
    pdev: Option<Dev>,
    pfile: usize,
    scr: Option<Box<Scr>>,
    scr_sh: *mut ScrSh,
    sfile: usize,
    // accept
    strm_t: Vec<Option<Strm<Io<Async<TcpStream>>>>>,
    strm_u: Vec<Option<Strm<Io<Async<UnixStream>>>>>,
}
pub struct ScrSh {
    left: u64,
    res: u64,
    kind: u8,
    calls: u64,
    after: bool,
    bad_kind: bool,
}
#[derive(Default)]
struct Thx {
    fwd: Option<Rc<Waker>>,
    tasks: Vec<usize>,
    polls: u64,
}
struct End {
    h: Option<Rc<dyn StreamH>>,
    tcp: Option<Arc<Async<TcpStream>>>,
    unix: Option<Arc<Async<UnixStream>>>,
    file: usize,
    users: u32,
    wtotal: u64,
    rtotal: u64,
    shut: bool,
    closed: bool,
}
struct Link {
    ends: Vec<Box<End>>,
    dirty: bool,
}
struct DgS {
    udp: Option<Arc<Udp>>,
    udg: Option<Arc<Udg>>,
    file: usize,
    addr: Addr,
    conn: bool,
    seq: u64,
}
struct Lst {
    tcp: Option<Arc<Async<TcpListener>>>,
    unix: Option<Arc<Async<UnixListener>>>,
    file: usize,
    got: BTreeSet<usize>,
    lost: u64,
}
pub struct NetW {
    fam: &'static str,
    prop: &'static str,
    bound: u64,
    tasks: Vec<Box<Task>>,
    ths: Vec<Thx>,
    links: Vec<Box<Link>>,
    dgs: Vec<Box<DgS>>,
    ls: Vec<Box<Lst>>,
    targets: Vec<(u8, Vec<u8>, Option<SocketAddr>)>,
    devs: Vec<(Option<Arc<Dev>>, usize)>,
    stop: bool,
    blockon: bool,
    ids: u64,
    seq: u64,
}
static mut NP: *mut NetW = std::ptr::null_mut();
fn n() -> &'static mut NetW {
    unsafe { &mut *NP }
}
fn tag(base: &str) -> &'static str {
    let s = if base.split(',').any(|x| x == n().prop) { base.to_string() } else { format!("{},{}", base, n().prop) };
    Box::leak(s.into_boxed_str())
}
fn expect(t: u64, props: &'static str, class: &'static str, done: impl Fn() -> Option<String> + 'static) {
    expect_by(t.saturating_add(n().bound), slack(), props, class, done);
}
fn pat(a: u64, b: u64, i: u64) -> u8 {
    mix(a * 4 + b + 77, i) as u8
}

// ---------------------------------------------------------------- waiting
fn ready(file: usize, dir: usize) -> bool {
    k().vfs.mask(file) & (if dir == 0 { vfs::RDBITS } else { vfs::WRBITS }) != 0
}
fn epoch(file: usize, dir: usize) -> u64 {
    let fl = &k().vfs.files[file];
    let e = match &fl.kind {
        Kind::Dev(d) => d.ep[dir],
        _ => 0,
    };
    e * 1_000_000 + if dir == 0 { fl.reads } else { fl.writes }
}
fn on_changed(file: usize) {
    for i in 0..n().tasks.len() {
        if n().tasks[i].wait.is_some_and(|w| w.0 == file) {
            oblige(i);
        }
    }
}
/// If the handle the task waits for is ready, the task must be woken soon.
fn oblige(i: usize) {
    let t = &n().tasks[i];
    let Some((file, dir)) = t.wait else { return };
    if t.done || wakes(t.wid) > t.c0 || !ready(file, dir) {
        return;
    }
    let (gen, ep) = (t.polls, epoch(file, dir));
    if t.oblig == Some((gen, ep)) {
        return;
    }
    n().tasks[i].oblig = Some((gen, ep));
    let at = now();
    expect(at, tag("R01,B03"), "WAIT_NOT_WOKEN", move || {
        let t = &n().tasks[i];
        if t.done || t.polls != gen || wakes(t.wid) > t.c0 || !ready(file, dir) || epoch(file, dir) != ep {
            return None;
        }
        if k().shm.faults[f::CANCEL] > 0 {
            k().extra += ",R03";
        }
        Some(format!("file {} has been ready for {} since {} but task {} waiting for it ({:?}) was not woken", file, if dir == 0 { "reading" } else { "writing" }, at, i, t.ops.get(t.pc).map(|o| (o.code, o.a))))
    });
}
fn woken(i: usize) {
    let t = &*n().tasks[i];
    let th = t.th;
    if let Some(fw) = n().ths[th].fwd.clone() {
        let c = wakes(t.wid);
        fw.wake_by_ref();
        expect(now(), tag("B01"), "LOST_WAKEUP", move || {
            let t = &n().tasks[i];
            if t.done || t.c0 >= c {
                None
            } else {
                Some(format!("the waker of a block_on call was invoked for task {} but its future was not polled again", i))
            }
        });
    }
    signal();
}

// ---------------------------------------------------------------- executor
fn pollable(i: usize) -> bool {
    let t = &n().tasks[i];
    !t.done && (t.first || wakes(t.wid) > t.c0 || n().stop && !t.stopped)
}
fn poll_task(i: usize) {
    let t = &mut *n().tasks[i];
    t.first = false;
    t.stopped = n().stop;
    t.c0 = wakes(t.wid);
    t.polls += 1;
    t.wait = None;
    t.oblig = None;
    let wk = t.h.as_ref().unwrap().clone();
    let mut cx = Context::from_waker(&wk);
    let r = step(i, &mut cx);
    let t = &mut *n().tasks[i];
    if r.is_ready() {
        t.done = true;
        t.wait = None;
        finish_task(i);
        signal();
    } else {
        oblige(i);
    }
}
fn round(th: usize) -> bool {
    let mut any = false;
    let m = n().ths[th].tasks.len();
    let s = n().ths[th].polls as usize;
    n().ths[th].polls += 1;
    for j in 0..m {
        let i = n().ths[th].tasks[(s + j) % m];
        if pollable(i) {
            any = true;
            poll_task(i);
        }
    }
    any
}
fn all_done(th: usize) -> bool {
    n().ths[th].tasks.iter().all(|i| n().tasks[*i].done)
}
struct Ex(usize);
impl Future for Ex {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let w = Some(Rc::new(cx.waker().clone()));
        drop(std::mem::replace(&mut n().ths[self.0].fwd, w));
        while round(self.0) {}
        if all_done(self.0) {
            drop(n().ths[self.0].fwd.take());
            return Poll::Ready(7);
        }
        Poll::Pending
    }
}
fn run_thread(th: usize, bo: bool) {
    if n().ths[th].tasks.is_empty() {
        return;
    }
    if bo {
        let r = simg::block_on(Box::pin(Ex(th)));
        if r != 7 {
            violate("B01", "VALUE", "block_on returned something else than its future's output");
        }
        return;
    }
    loop {
        while round(th) {}
        if all_done(th) {
            return;
        }
        wait_cond(None, &mut || n().ths[th].tasks.iter().any(|i| pollable(*i)));
    }
}
/// Run the operations of a task until one is pending or all are done.
fn step(i: usize, cx: &mut Context<'_>) -> Poll<()> {
    loop {
        let t = &mut *n().tasks[i];
        if t.pc >= t.ops.len() || (t.dead && !n().stop) {
            t.pend = Pend::None;
            return Poll::Ready(());
        }
        if n().stop && !matches!(t.ops[t.pc].code, "sread" | "swrite" | "oop" | "oscr" | "omut") {
            // Cancelled.
            log(|| format!("task {} stops", i));
            let p = std::mem::replace(&mut n().tasks[i].pend, Pend::None);
            cancel(i, p);
            return Poll::Ready(());
        }
        let o = t.ops[t.pc].clone();
        if matches!(t.pend, Pend::None) {
            t.opn += 1;
            log(|| format!("task {} op {} {:?}", i, o.code, o.a));
        }
        user_point();
        let r = match o.code {
            "nsleep" => nsleep(i, o.a[0], cx),
            "nstall" => {
                sleep(o.a[0]);
                Poll::Ready(())
            }
            "nyield" => {
                let t = &mut *n().tasks[i];
                if matches!(t.pend, Pend::Yield) {
                    t.pend = Pend::None;
                    Poll::Ready(())
                } else {
                    t.pend = Pend::Yield;
                    cx.waker().wake_by_ref();
                    Poll::Pending
                }
            }
            "sread" | "swrite" | "sflush" | "sshut" | "speek" | "sready" | "sreset" | "srewrap" | "sabort" => s_op(i, &o, cx),
            "dgsend" => dg_send(i, &o, cx),
            "dgrecv" => dg_recv(i, &o, cx),
            "conn" => c_conn(i, &o, cx),
            "acc" => c_acc(i, &o, cx),
            "oop" | "omut" => o_op(i, &o, cx),
            "oscr" => o_scr(i, &o, cx),
            "oset" => {
                if let Some(fl) = ofile(o.a[0]) {
                    vfs::dev_set(fl, (o.a[1] % 2) as usize, (o.a[2] % 3) as i64);
                }
                Poll::Ready(())
            }
            "osetat" => {
                let (x, d, v) = (o.a[0], (o.a[1] % 2) as usize, (o.a[2] % 3) as i64);
                at(now() + o.a[3], move || {
                    if let Some(fl) = ofile(x) {
                        vfs::dev_set(fl, d, v);
                    }
                });
                Poll::Ready(())
            }
            _ => Poll::Ready(()),
        };
        if r.is_pending() {
            return Poll::Pending;
        }
        let t = &mut *n().tasks[i];
        t.pend = Pend::None;
        t.pc += 1;
    }
}
fn nsleep(i: usize, d: u64, cx: &mut Context<'_>) -> Poll<()> {
    let t = &mut *n().tasks[i];
    if !matches!(t.pend, Pend::Sleep(_)) {
        t.pend = Pend::Sleep(Timer::after(Duration::from_nanos(d)));
    }
    let Pend::Sleep(tm) = &mut n().tasks[i].pend else { unreachable!() };
    if Pin::new(tm).poll(cx).is_ready() {
        return Poll::Ready(());
    }
    Poll::Pending
}
fn io_clear() {
    simk::kern::cur().io.clear();
    own_clear();
}
fn own_clear() {
    simk::kern::cur().modf = 0;
}
/// Whether a registration for waiting was refused since the last `own_clear` on this thread.
fn own_fail() -> bool {
    simk::kern::cur().modf > 0
}
/// The operation had to wait but could not be registered: it has to return that error. Whether that happened.
fn check_own(what: &str, file: usize, res: Poll<Option<&io::Error>>, fin: bool) -> bool {
    if !own_fail() {
        return false;
    }
    if fin || !matches!(res, Poll::Ready(Some(e)) if e.raw_os_error() == Some(libc::ENOMEM)) {
        violate(tag("F01"), "ERROR_LOST", &format!("{} on file {}: registering for readiness failed with ENOMEM but the result was {:?}", what, file, res));
    }
    true
}
fn errof<T>(r: &Poll<Io<T>>) -> Poll<Option<&io::Error>> {
    match r {
        Poll::Pending => Poll::Pending,
        Poll::Ready(Ok(_)) => Poll::Ready(None),
        Poll::Ready(Err(e)) => Poll::Ready(Some(e)),
    }
}
fn io_recs() -> Vec<IoRec> {
    std::mem::take(&mut simk::kern::cur().io)
}
const EAGAIN: isize = -(libc::EAGAIN as isize);

/// What a single poll of an I/O operation did, against the calls it made on `file`:
/// WouldBlock results are waited for, the first other result is returned unchanged and nothing follows it.
fn check_poll(what: &str, file: usize, kinds: &[u8], recs: &[IoRec], res: &Poll<Io<usize>>, first: bool) {
    let mine: Vec<&IoRec> = recs.iter().filter(|r| kinds.contains(&r.kind)).collect();
    if let Some(r) = recs.iter().find(|r| r.file != file || !kinds.contains(&r.kind)) {
        violate(tag("A01"), "WRONG_CALL", &format!("{} on file {} made the call {:?}", what, file, r));
    }
    let fin: Vec<usize> = (0..mine.len()).filter(|x| mine[*x].ret != EAGAIN).collect();
    if check_own(what, file, errof(res), !fin.is_empty()) {
        return;
    }
    match res {
        Poll::Pending => {
            if let Some(x) = fin.first() {
                violate(tag("A01"), "RESULT_LOST", &format!("{} on file {} is pending although the call returned {}", what, file, mine[*x].ret));
            }
            if first && mine.is_empty() {
                violate(tag("A01"), "NOT_TRIED", &format!("{} on file {} waits without having tried the operation", what, file));
            }
        }
        Poll::Ready(r) => {
            if fin.len() != 1 || fin[0] != mine.len() - 1 {
                let l: Vec<isize> = mine.iter().map(|x| x.ret).collect();
                violate(tag("A01"), "RESULT_SWALLOWED", &format!("{} on file {} returned {:?} after calls with the results {:?}", what, file, r, l));
            }
            let want = mine[fin[0]].ret;
            let ok = match r {
                Ok(v) => want == *v as isize,
                Err(e) => want < 0 && e.raw_os_error() == Some(-want as i32),
            };
            if !ok {
                violate(tag("A01"), "RESULT_CHANGED", &format!("{} on file {} returned {:?} but the call returned {}", what, file, r, want));
            }
        }
    }
}

// ---------------------------------------------------------------- streams
fn end_of(i: usize) -> (usize, usize) {
    (i / 4, (i / 2) % 2)
}
fn s_setup(p: &Prog) {
    let nl = p.cfg.get("links", 1);
    for l in 0..nl {
        let kind = p.cfg.get(&format!("link{}", l), 0);
        let mut ends = vec![];
        let mk = |h: Rc<dyn StreamH>, tcp, unix| {
            let file = k().vfs.file_of(h.raw()).expect("HARNESS stream file");
            Box::new(End { h: Some(h), tcp, unix, file, users: 0, wtotal: 0, rtotal: 0, shut: false, closed: false })
        };
        let nz = |r: Io<()>| r.unwrap_or_else(|e| violate("A02,A04,A05", "SETUP", &format!("setting up a stream failed: {}", e)));
        fn un(a: Async<UnixStream>) -> (Rc<dyn StreamH>, Option<Arc<Async<TcpStream>>>, Option<Arc<Async<UnixStream>>>) {
            let a = Arc::new(a);
            (Rc::new(ArcS(a.clone())), None, Some(a))
        }
        fn tc(a: Async<TcpStream>) -> (Rc<dyn StreamH>, Option<Arc<Async<TcpStream>>>, Option<Arc<Async<UnixStream>>>) {
            let a = Arc::new(a);
            (Rc::new(ArcS(a.clone())), Some(a), None)
        }
        match kind {
            0 => {
                let (a, b) = match unix_pair() {
                    Ok(x) => x,
                    Err(e) => {
                        nz(Err(e));
                        continue;
                    }
                };
                for x in [a, b] {
                    let (h, t, u) = un(x);
                    ends.push(mk(h, t, u));
                }
            }
            1 => {
                let (a, b) = UnixStream::pair().expect("HARNESS pair");
                for x in [a, b] {
                    let (h, t, u) = un(unix_wrap(x).expect("HARNESS wrap"));
                    ends.push(mk(h, t, u));
                }
            }
            2 => {
                let ls = TcpListener::bind("127.0.0.1:0").expect("HARNESS bind");
                let a = TcpStream::connect(ls.local_addr().unwrap()).expect("HARNESS connect");
                let (b, _) = ls.accept().expect("HARNESS accept");
                for x in [a, b] {
                    let (h, t, u) = tc(tcp_wrap(x).expect("HARNESS wrap"));
                    ends.push(mk(h, t, u));
                }
            }
            _ => {
                let ls = tcp_bind("127.0.0.1:0".parse().unwrap(), p.cfg.get("conv", 0) & 1 != 0).expect("HARNESS bind");
                let ad = ls.get_ref().local_addr().unwrap();
                let out: Rc<std::cell::RefCell<Vec<Async<TcpStream>>>> = Rc::new(Default::default());
                let o2 = out.clone();
                let ls = Arc::new(ls);
                let l2 = ls.clone();
                simg::block_on(Box::pin(async move {
                    let c = tcp_connect(ad).await.expect("HARNESS connect");
                    let (s, _) = tcp_accept(&l2).await.expect("HARNESS accept");
                    o2.borrow_mut().push(c);
                    o2.borrow_mut().push(s);
                    1
                }));
                drop_it(ls);
                for x in out.take() {
                    let (h, t, u) = tc(x);
                    ends.push(mk(h, t, u));
                }
            }
        }
        n().links.push(Box::new(Link { ends, dirty: false }));
    }
}
/// A shared stream handle behind the object-safe view.
struct ArcS<T>(Arc<T>);
impl<T: StreamH> StreamH for ArcS<T> {
    fn pread(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Io<usize>> {
        self.0.pread(cx, buf)
    }
    fn preadv(&self, cx: &mut Context<'_>, a: &mut [u8], b: &mut [u8]) -> Poll<Io<usize>> {
        self.0.preadv(cx, a, b)
    }
    fn pwrite(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Io<usize>> {
        self.0.pwrite(cx, buf)
    }
    fn pwritev(&self, cx: &mut Context<'_>, a: &[u8], b: &[u8]) -> Poll<Io<usize>> {
        self.0.pwritev(cx, a, b)
    }
    fn pflush(&self, cx: &mut Context<'_>) -> Poll<Io<()>> {
        self.0.pflush(cx)
    }
    fn pclose(&self, cx: &mut Context<'_>) -> Poll<Io<()>> {
        self.0.pclose(cx)
    }
    // One task uses the handle at a time (exclusive ends), so handing out the unique reference is sound.
    fn own_pread(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Io<usize>> {
        unsafe { (*(Arc::as_ptr(&self.0) as *mut T)).own_pread(cx, buf) }
    }
    fn own_preadv(&mut self, cx: &mut Context<'_>, a: &mut [u8], b: &mut [u8]) -> Poll<Io<usize>> {
        unsafe { (*(Arc::as_ptr(&self.0) as *mut T)).own_preadv(cx, a, b) }
    }
    fn own_pwrite(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Io<usize>> {
        unsafe { (*(Arc::as_ptr(&self.0) as *mut T)).own_pwrite(cx, buf) }
    }
    fn own_pwritev(&mut self, cx: &mut Context<'_>, a: &[u8], b: &[u8]) -> Poll<Io<usize>> {
        unsafe { (*(Arc::as_ptr(&self.0) as *mut T)).own_pwritev(cx, a, b) }
    }
    fn shutdown(&self, how: std::net::Shutdown) -> Io<()> {
        self.0.shutdown(how)
    }
    fn raw(&self) -> i32 {
        self.0.raw()
    }
    fn pr(&self, cx: &mut Context<'_>) -> Poll<Io<()>> {
        self.0.pr(cx)
    }
    fn pw(&self, cx: &mut Context<'_>) -> Poll<Io<()>> {
        self.0.pw(cx)
    }
    fn try_read(&self, buf: &mut [u8]) -> Io<usize> {
        self.0.try_read(buf)
    }
    fn peer_name(&self) -> String {
        self.0.peer_name()
    }
    fn local_name(&self) -> String {
        self.0.local_name()
    }
}
fn end(l: usize, e: usize) -> &'static mut End {
    &mut n().links[l].ends[e]
}
/// Bytes that were read (or peeked) at the reader's position.
fn check_bytes(l: usize, e: usize, b: &[u8], peek: bool) {
    let off = end(l, e).rtotal;
    let pe = 1 - e;
    for (j, x) in b.iter().enumerate() {
        if *x != pat(l as u64, pe as u64, off + j as u64) {
            violate("A02", "WRONG_BYTES", &format!("link {} end {}: byte {} read is not the byte that was written", l, e, off + j as u64));
        }
    }
    let sent = end(l, pe).wtotal;
    if off + b.len() as u64 > sent {
        violate("A02", "WRONG_BYTES", &format!("link {} end {}: {} bytes read but only {} were written", l, e, off + b.len() as u64, sent));
    }
    if !peek {
        end(l, e).rtotal += b.len() as u64;
    }
}
fn s_err(i: usize, e: &io::Error) -> bool {
    if e.kind() == io::ErrorKind::Interrupted || own_fail() {
        return false;
    }
    if e.kind() == io::ErrorKind::WouldBlock {
        violate(tag("A01"), "WOULDBLOCK", "an operation returned WouldBlock");
    }
    let (l, _) = end_of(i);
    n().links[l].dirty = true;
    true
}
fn s_op(i: usize, o: &Op, cx: &mut Context<'_>) -> Poll<()> {
    let (l, e) = end_of(i);
    if l >= n().links.len() {
        return Poll::Ready(());
    }
    let Some(h) = end(l, e).h.clone() else { return Poll::Ready(()) };
    let file = end(l, e).file;
    let (a0, mode) = (o.a[0], o.a[1]);
    let mut first = matches!(n().tasks[i].pend, Pend::None);
    let own = mode & 2 != 0 && n().tasks.iter().enumerate().filter(|(j, t)| end_of(*j) == (l, e) && !t.ops.is_empty()).count() == 1;
    let done0 = match n().tasks[i].pend {
        Pend::Stream(x) => x,
        _ => 0,
    };
    let mut done = done0;
    match o.code {
        "sread" => loop {
            // a0: how many bytes to read at most (u64::MAX: until the end), a[2]: buffer size
            if done >= a0 {
                return Poll::Ready(());
            }
            let sz = (o.a[2].clamp(1, 4096)).min(a0 - done) as usize;
            let mut b = vec![0xEEu8; sz];
            io_clear();
            let h2 = unsafe { &mut *(Rc::as_ptr(&h) as *mut dyn StreamH) };
            let r = match mode & 3 {
                0 => h.pread(cx, &mut b),
                1 => {
                    let (x, y) = b.split_at_mut(sz / 2);
                    h.preadv(cx, x, y)
                }
                2 if own => h2.own_pread(cx, &mut b),
                3 if own => {
                    let (x, y) = b.split_at_mut(sz / 2);
                    h2.own_preadv(cx, x, y)
                }
                _ => h.pread(cx, &mut b),
            };
            let recs = io_recs();
            check_poll("read", file, b"r", &recs, &r, first);
            first = true;
            match r {
                Poll::Pending => {
                    n().tasks[i].pend = Pend::Stream(done);
                    n().tasks[i].wait = Some((file, 0));
                    return Poll::Pending;
                }
                Poll::Ready(Ok(0)) => {
                    // The end: everything the peer wrote has been read.
                    let p = end(l, 1 - e);
                    if !n().links[l].dirty && !n().stop {
                        if !p.shut && !p.closed {
                            violate("A02", "FALSE_EOF", &format!("link {} end {}: end of file although the peer neither shut down nor closed", l, e));
                        }
                        // A reset takes the bytes in flight with it; its error may just have gone to another task.
                        let reset = k().vfs.is_sock(file) && k().vfs.sock(file).was_reset;
                        if end(l, e).rtotal != p.wtotal && !reset {
                            violate("A02", "EARLY_EOF", &format!("link {} end {}: end of file after {} of {} bytes", l, e, end(l, e).rtotal, p.wtotal));
                        }
                    }
                    return Poll::Ready(());
                }
                Poll::Ready(Ok(m)) => {
                    check_bytes(l, e, &b[..m], false);
                    if b[m..].iter().any(|x| *x != 0xEE) {
                        violate("A02", "WRONG_BYTES", "a read wrote beyond the bytes it reported");
                    }
                    done += m as u64;
                    if mode & 4 != 0 {
                        return Poll::Ready(());
                    }
                }
                Poll::Ready(Err(er)) => {
                    if s_err(i, &er) {
                        n().tasks[i].dead = true;
                        n().tasks[i].pc = usize::MAX / 2;
                        return Poll::Ready(());
                    }
                }
            }
        },
        "swrite" => loop {
            if done >= a0 {
                return Poll::Ready(());
            }
            let zero = o.a[3] != 0 && !n().tasks[i].zero;
            let sz = if zero { 0 } else { (o.a[2].clamp(1, 4096)).min(a0 - done) as usize };
            let off = end(l, e).wtotal;
            let b: Vec<u8> = (0..sz as u64).map(|j| pat(l as u64, e as u64, off + j)).collect();
            io_clear();
            // The reader may be served before this call has returned.
            end(l, e).wtotal += sz as u64;
            let h2 = unsafe { &mut *(Rc::as_ptr(&h) as *mut dyn StreamH) };
            let r = match mode & 3 {
                0 => h.pwrite(cx, &b),
                1 => h.pwritev(cx, &b[..sz / 2], &b[sz / 2..]),
                2 if own => h2.own_pwrite(cx, &b),
                3 if own => h2.own_pwritev(cx, &b[..sz / 2], &b[sz / 2..]),
                _ => h.pwrite(cx, &b),
            };
            end(l, e).wtotal -= sz as u64;
            if let Poll::Ready(Ok(m)) = r {
                end(l, e).wtotal += m as u64;
            }
            let recs = io_recs();
            check_poll("write", file, b"w", &recs, &r, first);
            first = true;
            match r {
                Poll::Pending => {
                    n().tasks[i].pend = Pend::Stream(done);
                    n().tasks[i].wait = Some((file, 1));
                    return Poll::Pending;
                }
                Poll::Ready(Ok(m)) => {
                    if recs.last().is_some_and(|x| x.data[..] != b[..m.min(sz)]) {
                        violate("A02", "WRONG_BYTES", "the bytes handed to the operating system are not those of the caller");
                    }
                    done += m as u64;
                    // An empty write comes before every other one.
                    n().tasks[i].zero = zero;
                    if mode & 4 != 0 {
                        return Poll::Ready(());
                    }
                }
                Poll::Ready(Err(er)) => {
                    if s_err(i, &er) {
                        n().tasks[i].dead = true;
                        n().tasks[i].pc = usize::MAX / 2;
                        return Poll::Ready(());
                    }
                }
            }
        },
        "sflush" => {
            let fin = |f: usize| k().vfs.is_sock(f) && k().vfs.sock(f).fin_sent;
            let before = fin(file);
            let r = if a0 % 2 == 0 { h.pflush(cx) } else { h.pclose(cx) };
            match r {
                Poll::Ready(Ok(())) => {}
                x => violate(tag("A01"), "FLUSH", &format!("flushing a stream returned {:?}", x)),
            }
            if !before && fin(file) && !end(l, 1 - e).closed && !n().links[l].dirty && !n().stop {
                violate("A02", "SHUT", "flushing or closing a stream shut it down");
            }
            Poll::Ready(())
        }
        "sshut" => {
            end(l, e).shut = true;
            let _ = h.shutdown(std::net::Shutdown::Write);
            Poll::Ready(())
        }
        "speek" => {
            let Some(t) = end(l, e).tcp.clone() else { return Poll::Ready(()) };
            // Peek once within this operation; wait like a read.
            let mut fu = tcp_peek(&t, o.a[2].clamp(1, 64) as usize);
            drop(t);
            io_clear();
            let r = fu.as_mut().poll(cx);
            let recs = io_recs();
            let rn = match &r {
                Poll::Ready(Ok(v)) => Poll::Ready(Ok(v.len())),
                Poll::Ready(Err(x)) => Poll::Ready(Err(io::Error::from_raw_os_error(x.raw_os_error().unwrap_or(0)))),
                Poll::Pending => Poll::Pending,
            };
            check_poll("peek", file, b"p", &recs, &rn, true);
            drop_fut(fu);
            match r {
                Poll::Ready(Ok(v)) => check_bytes(l, e, &v, true),
                Poll::Ready(Err(x)) => {
                    if s_err(i, &x) {
                        n().tasks[i].dead = true;
                        n().tasks[i].pc = usize::MAX / 2;
                    }
                }
                Poll::Pending => {}
            }
            Poll::Ready(())
        }
        "sready" => {
            // Wait for readiness, then read once.
            let r = loop {
                own_clear();
                let r = h.pr(cx);
                if !check_own("poll_readable", file, errof(&r), false) {
                    break r;
                }
            };
            match r {
                Poll::Pending => {
                    n().tasks[i].pend = Pend::Stream(0);
                    n().tasks[i].wait = Some((file, 0));
                    return Poll::Pending;
                }
                Poll::Ready(Err(_)) => violate(tag("R01"), "WAIT_ERROR", "poll_readable failed without a failing system call"),
                Poll::Ready(Ok(())) => {}
            }
            let mut b = vec![0xEEu8; 16];
            match h.try_read(&mut b) {
                Ok(m) => check_bytes(l, e, &b[..m], false),
                Err(er) if er.kind() == io::ErrorKind::WouldBlock => {}
                Err(er) => {
                    if s_err(i, &er) {
                        n().tasks[i].dead = true;
                        n().tasks[i].pc = usize::MAX / 2;
                    }
                }
            }
            Poll::Ready(())
        }
        "sreset" => {
            n().links[l].dirty = true;
            vfs::net_reset(file);
            Poll::Ready(())
        }
        "sabort" => {
            // Leave the rest; the handle is dropped with the task.
            n().tasks[i].pc = usize::MAX / 2;
            Poll::Ready(())
        }
        "srewrap" => {
            if own {
                drop(h);
                end(l, e).h = None;
                if let Some(t) = end(l, e).tcp.take() {
                    let t = Arc::try_unwrap(t).unwrap_or_else(|_| panic!("HARNESS stream shared"));
                    match tcp_unwrap(t) {
                        Ok(s) => {
                            s_unwrapped(file, s.as_raw_fd());
                            let a = Arc::new(tcp_wrap(s).unwrap_or_else(|e| violate("H01", "REWRAP", &format!("wrapping again failed: {}", e))));
                            end(l, e).h = Some(Rc::new(ArcS(a.clone())));
                            end(l, e).tcp = Some(a);
                        }
                        Err(x) => violate("H01", "INTO_INNER", &format!("into_inner failed: {}", x)),
                    }
                } else if let Some(t) = end(l, e).unix.take() {
                    let t = Arc::try_unwrap(t).unwrap_or_else(|_| panic!("HARNESS stream shared"));
                    match unix_unwrap(t) {
                        Ok(s) => {
                            s_unwrapped(file, s.as_raw_fd());
                            let a = Arc::new(unix_wrap(s).unwrap_or_else(|e| violate("H01", "REWRAP", &format!("wrapping again failed: {}", e))));
                            end(l, e).h = Some(Rc::new(ArcS(a.clone())));
                            end(l, e).unix = Some(a);
                        }
                        Err(x) => violate("H01", "INTO_INNER", &format!("into_inner failed: {}", x)),
                    }
                }
            }
            Poll::Ready(())
        }
        _ => Poll::Ready(()),
    }
}
fn s_unwrapped(file: usize, fd: i32) {
    if k().vfs.file_of(fd) != Some(file) {
        violate("H01", "INTO_INNER", "into_inner gave back a different descriptor");
    }
    if !k().vfs.files[file].watchers.is_empty() {
        violate("H01", "STILL_REGISTERED", "an unwrapped stream is still registered in the reactor");
    }
    if !k().vfs.files[file].nonblock {
        violate("H01", "BLOCKING", "an unwrapped stream is blocking");
    }
}
fn close_end(l: usize, e: usize) {
    let file = end(l, e).file;
    if k().vfs.is_sock(file) {
        let s = k().vfs.sock(file);
        if !s.rx.is_empty() || s.inflight > 0 {
            n().links[l].dirty = true;
        }
    }
    end(l, e).closed = true;
    let (h, t, u) = (end(l, e).h.take(), end(l, e).tcp.take(), end(l, e).unix.take());
    drop(h);
    // Data may still arrive between the check above and the close.
    if k().vfs.is_sock(file) && end(l, 1 - e).wtotal != end(l, e).rtotal {
        n().links[l].dirty = true;
    }
    drop_it(t);
    drop_it(u);
    if !matches!(k().vfs.files[file].kind, Kind::Closed) {
        violate("H01", "NOT_CLOSED", "a dropped stream handle was not closed");
    }
}

// ---------------------------------------------------------------- datagrams
fn sa(a: &Addr) -> Option<SocketAddr> {
    match a {
        Addr::In(x) => Some(*x),
        _ => None,
    }
}
fn d_setup(p: &Prog) {
    let ns = p.cfg.get("socks", 2) as usize;
    let kind = p.cfg.get("dgkind", 0);
    let mk = |udp, udg, fd| {
        let file = k().vfs.file_of(fd).expect("HARNESS datagram file");
        let addr = k().vfs.sock(file).local.clone();
        Box::new(DgS { udp, udg, file, addr, conn: false, seq: 0 })
    };
    if kind == 0 || kind == 1 {
        for x in 0..ns {
            let s = udp_bind(if kind == 0 { "127.0.0.1:0" } else { "[::1]:0" }.parse().unwrap(), p.cfg.get("conv", 0) >> x & 1 != 0).unwrap_or_else(|e| violate("A03", "SETUP", &format!("bind failed: {}", e)));
            let fd = s.as_raw_fd();
            n().dgs.push(mk(Some(Arc::new(s)), None, fd));
        }
        if p.cfg.get("connected", 0) != 0 {
            for x in 0..ns {
                let y = (x + 1) % ns;
                let to = sa(&n().dgs[y].addr).unwrap();
                n().dgs[x].udp.as_ref().unwrap().get_ref().connect(to).expect("HARNESS connect");
                n().dgs[x].conn = true;
                if p.cfg.get("connected", 0) == 1 {
                    break;
                }
            }
        }
    } else if kind == 2 {
        let (a, b) = udg_pair().unwrap_or_else(|e| violate("A03", "SETUP", &format!("pair failed: {}", e)));
        for s in [a, b] {
            let fd = s.as_raw_fd();
            n().dgs.push(mk(None, Some(Arc::new(s)), fd));
        }
        n().dgs[0].conn = true;
        n().dgs[1].conn = true;
    } else {
        for x in 0..ns {
            let s = if x + 1 == ns && p.cfg.get("unbound", 0) != 0 { udg_unbound() } else { udg_bind(&format!("/tmp/sim{}", x), p.cfg.get("conv", 0) >> x & 1 != 0) };
            let s = s.unwrap_or_else(|e| violate("A03", "SETUP", &format!("bind failed: {}", e)));
            let fd = s.as_raw_fd();
            n().dgs.push(mk(None, Some(Arc::new(s)), fd));
        }
        if p.cfg.get("connected", 0) != 0 {
            n().dgs[ns - 1].udg.as_ref().unwrap().get_ref().connect("/tmp/sim0").expect("HARNESS connect");
            n().dgs[ns - 1].conn = true;
        }
    }
    for s in &n().dgs {
        if !k().vfs.files[s.file].nonblock || k().vfs.files[s.file].watchers.is_empty() {
            violate("A03,H01", "NOT_REGISTERED", "a new datagram handle is not registered or not in non-blocking mode");
        }
    }
}
fn dg_msg(s: usize, len: usize) -> Vec<u8> {
    let q = n().dgs[s].seq;
    n().dgs[s].seq += 1;
    let mut v: Vec<u8> = vec![s as u8, q as u8, (q >> 8) as u8];
    for j in 3..len {
        v.push(pat(s as u64 + 100, q, j as u64));
    }
    v.truncate(len);
    v
}
/// socket, destination (socket index, or ns: a missing one, or u64::MAX: the connected peer), length, cancel after
fn dg_send(i: usize, o: &Op, cx: &mut Context<'_>) -> Poll<()> {
    let ns = n().dgs.len();
    let s = o.a[0] as usize % ns;
    let file = n().dgs[s].file;
    let first = matches!(n().tasks[i].pend, Pend::None);
    let to: Option<Addr> = if o.a[1] == u64::MAX {
        None
    } else {
        let d = o.a[1] as usize % (ns + 1);
        Some(if d == ns {
            match &n().dgs[0].addr {
                Addr::In(x) => Addr::In(SocketAddr::new(x.ip(), 9)),
                _ => Addr::Un(b"/tmp/missing".to_vec()),
            }
        } else {
            n().dgs[d].addr.clone()
        })
    };
    if to == Some(Addr::None) {
        return Poll::Ready(());
    }
    if first {
        let data = dg_msg(s, o.a[2].min(70_000) as usize);
        let fut = if let Some(u) = &n().dgs[s].udp {
            udp_send(u, data.clone(), to.as_ref().and_then(sa))
        } else {
            let u = n().dgs[s].udg.as_ref().unwrap();
            let path = match &to {
                Some(Addr::Un(p)) => Some(String::from_utf8(p.clone()).unwrap()),
                _ => None,
            };
            udg_send(u, data.clone(), path)
        };
        n().tasks[i].pend = Pend::DgSend { fut: Some(fut), data, polls: 0 };
    }
    let Pend::DgSend { fut, data, polls } = &mut n().tasks[i].pend else { unreachable!() };
    *polls += 1;
    let np = *polls;
    let data = data.clone();
    let mut fu = fut.take().unwrap();
    io_clear();
    let r = fu.as_mut().poll(cx);
    let recs = io_recs();
    check_poll("send", file, b"w", &recs, &r, first);
    match r {
        Poll::Pending => {
            if o.a[3] != 0 && np >= o.a[3] {
                k().count(f::CANCEL);
                drop_fut(fu);
                return Poll::Ready(());
            }
            n().tasks[i].wait = Some((file, 1));
            if let Pend::DgSend { fut, .. } = &mut n().tasks[i].pend {
                *fut = Some(fu);
            }
            Poll::Pending
        }
        Poll::Ready(r) => {
            drop_fut(fu);
            if let Ok(m) = r {
                let rec = recs.last().unwrap();
                if m != data.len() || rec.data != data {
                    violate("A03", "WRONG_MESSAGE", &format!("a message of {} bytes was sent as {} bytes", data.len(), rec.data.len()));
                }
                if to.is_some() && Some(&rec.addr) != to.as_ref() {
                    violate("A03", "WRONG_DEST", &format!("a message for {:?} was sent to {:?}", to, rec.addr));
                }
            }
            Poll::Ready(())
        }
    }
}
fn dg_check_content(s: usize, b: &[u8], buflen: usize) {
    if b.len() < 3 {
        return;
    }
    let from = b[0] as usize;
    let q = b[1] as u64 | (b[2] as u64) << 8;
    if from >= n().dgs.len() || q >= n().dgs[from].seq {
        violate("A03", "WRONG_MESSAGE", &format!("socket {} received a message nobody sent", s));
    }
    for (j, x) in b.iter().enumerate().skip(3) {
        if *x != pat(from as u64 + 100, q, j as u64) {
            violate("A03", "WRONG_MESSAGE", &format!("socket {}: byte {} of message {} of socket {} is wrong", s, j, q, from));
        }
    }
    let _ = buflen;
}
/// socket, kind (0 recv_from 1 peek_from 2 recv 3 peek), buffer size, cancel after
fn dg_recv(i: usize, o: &Op, cx: &mut Context<'_>) -> Poll<()> {
    let ns = n().dgs.len();
    let s = o.a[0] as usize % ns;
    let file = n().dgs[s].file;
    let udp = n().dgs[s].udp.is_some();
    let first = matches!(n().tasks[i].pend, Pend::None);
    let mut kind = o.a[1] % 4;
    if !udp {
        kind &= 2;
    }
    let peek = kind & 1 != 0;
    let len = o.a[2] .min(70_000) as usize;
    if first {
        n().tasks[i].pend = if udp {
            Pend::DgRecvU { fut: Some(udp_recv(n().dgs[s].udp.as_ref().unwrap(), b"rpRP"[kind as usize], len)), polls: 0 }
        } else {
            Pend::DgRecvX { fut: Some(udg_recv(n().dgs[s].udg.as_ref().unwrap(), kind == 0, len)), polls: 0 }
        };
    }
    enum Fu {
        U(Fut<Io<(Vec<u8>, Option<SocketAddr>)>>),
        X(Fut<Io<(Vec<u8>, Option<std::os::unix::net::SocketAddr>)>>),
    }
    let (mut fu, np) = match &mut n().tasks[i].pend {
        Pend::DgRecvU { fut, polls } => {
            *polls += 1;
            (Fu::U(fut.take().unwrap()), *polls)
        }
        Pend::DgRecvX { fut, polls } => {
            *polls += 1;
            (Fu::X(fut.take().unwrap()), *polls)
        }
        _ => unreachable!(),
    };
    io_clear();
    let r: Poll<Io<(Vec<u8>, Option<Addr>)>> = match &mut fu {
        Fu::U(x) => x.as_mut().poll(cx).map(|r| r.map(|(b, a)| (b, a.map(Addr::In)))),
        Fu::X(x) => x.as_mut().poll(cx).map(|r| {
            r.map(|(b, a)| {
                (
                    b,
                    a.map(|a| match a.as_pathname() {
                        Some(p) => Addr::Un(p.to_string_lossy().as_bytes().to_vec()),
                        None => Addr::None,
                    }),
                )
            })
        }),
    };
    let recs = io_recs();
    let rn = match &r {
        Poll::Ready(Ok(v)) => Poll::Ready(Ok(v.0.len())),
        Poll::Ready(Err(x)) => Poll::Ready(Err(io::Error::from_raw_os_error(x.raw_os_error().unwrap_or(0)))),
        Poll::Pending => Poll::Pending,
    };
    check_poll("receive", file, if peek { b"p" } else { b"r" }, &recs, &rn, first);
    let dropit = |fu: Fu| match fu {
        Fu::U(x) => drop_fut(x),
        Fu::X(x) => drop_fut(x),
    };
    match r {
        Poll::Pending => {
            if o.a[3] != 0 && np >= o.a[3] {
                k().count(f::CANCEL);
                dropit(fu);
                return Poll::Ready(());
            }
            n().tasks[i].wait = Some((file, 0));
            match (&mut n().tasks[i].pend, fu) {
                (Pend::DgRecvU { fut, .. }, Fu::U(x)) => *fut = Some(x),
                (Pend::DgRecvX { fut, .. }, Fu::X(x)) => *fut = Some(x),
                _ => unreachable!(),
            }
            Poll::Pending
        }
        Poll::Ready(r) => {
            dropit(fu);
            if let Ok((b, a)) = r {
                let rec = recs.last().unwrap();
                if rec.data != b {
                    violate("A03", "WRONG_MESSAGE", &format!("socket {}: received {:?} but the message was {:?}", s, b, rec.data));
                }
                if let Some(a) = a {
                    if a != rec.addr {
                        violate("A03", "WRONG_SENDER", &format!("socket {}: sender reported as {:?}, was {:?}", s, a, rec.addr));
                    }
                }
                dg_check_content(s, &b, len);
                if b.len() >= 3 && rec.addr != Addr::None {
                    let from = b[0] as usize;
                    if n().dgs[from].addr != rec.addr {
                        violate("A03", "WRONG_SENDER", &format!("socket {}: message of socket {} arrived from {:?}", s, from, rec.addr));
                    }
                }
                obligation();
            }
            Poll::Ready(())
        }
    }
}

// ---------------------------------------------------------------- connecting and accepting
fn c_setup(p: &Prog) {
    // Listeners: 0 tcp4, 1 tcp6, 2 unix path, 3 unix abstract.
    use std::os::linux::net::SocketAddrExt;
    let want = p.cfg.get("lsts", 15);
    for x in 0..4 {
        if want >> x & 1 == 0 {
            n().ls.push(Box::new(Lst { tcp: None, unix: None, file: usize::MAX, got: BTreeSet::new(), lost: 0 }));
            n().targets.push((9, vec![], None));
            continue;
        }
        let mut l = Lst { tcp: None, unix: None, file: 0, got: BTreeSet::new(), lost: 0 };
        let fd;
        match x {
            0 | 1 => {
                let a = tcp_bind(if x == 0 { "127.0.0.1:0" } else { "[::1]:0" }.parse().unwrap(), p.cfg.get("conv", 0) >> x & 1 != 0).unwrap_or_else(|e| violate("A05", "SETUP", &format!("bind failed: {}", e)));
                let ad = a.get_ref().local_addr().unwrap();
                fd = a.as_raw_fd();
                l.tcp = Some(Arc::new(a));
                n().targets.push((0, vec![], Some(ad)));
            }
            2 => {
                let a = unix_bind("/tmp/simlst", p.cfg.get("conv", 0) & 4 != 0).unwrap_or_else(|e| violate("A05", "SETUP", &format!("bind failed: {}", e)));
                fd = a.as_raw_fd();
                l.unix = Some(Arc::new(a));
                n().targets.push((1, b"/tmp/simlst".to_vec(), None));
            }
            _ => {
                let sa = std::os::unix::net::SocketAddr::from_abstract_name(b"sim\x01a\0bs").unwrap();
                let a = UnixListener::bind_addr(&sa).expect("HARNESS bind");
                let a = unix_listener_wrap(a).unwrap_or_else(|e| violate("A05", "SETUP", &format!("wrap failed: {}", e)));
                fd = a.as_raw_fd();
                l.unix = Some(Arc::new(a));
                n().targets.push((1, b"\0sim\x01a\0bs".to_vec(), None));
            }
        }
        l.file = k().vfs.file_of(fd).expect("HARNESS listener file");
        if !k().vfs.files[l.file].nonblock || k().vfs.files[l.file].watchers.is_empty() {
            violate("A05,H01", "NOT_REGISTERED", "a new listener is not registered or not in non-blocking mode");
        }
        n().ls.push(Box::new(l));
    }
    n().targets.push((0, vec![], Some("127.0.0.1:9".parse().unwrap())));
    n().targets.push((1, b"/tmp/missing".to_vec(), None));
    n().targets.push((1, b"\0missing".to_vec(), None));
    n().targets.push((1, vec![b'x'; 120], None));
    // Unusual addresses: zero bytes and the greatest lengths.
    n().targets.push((1, b"\0sim\x01a".to_vec(), None));
    n().targets.push((1, b"\0miss\0ing\0".to_vec(), None));
    n().targets.push((1, b"\0\0\0".to_vec(), None));
    let mut long = vec![b'y'; 108];
    n().targets.push((1, long[..107].to_vec(), None));
    n().targets.push((1, long.clone(), None));
    long[0] = 0;
    n().targets.push((1, long.clone(), None));
    long.push(b'z');
    n().targets.push((1, long, None));
    n().targets.push((1, b"/tmp/sim\0lst".to_vec(), None));
    n().targets.push((0, vec![], Some("[::1]:9".parse().unwrap())));
    n().targets.push((0, vec![], Some("[::ffff:127.0.0.1]:9".parse().unwrap())));
    n().targets.push((0, vec![], Some(SocketAddr::V6(std::net::SocketAddrV6::new("fe80::1".parse().unwrap(), 4242, 0, 7)))));
}
fn addr_of(t: &(u8, Vec<u8>, Option<SocketAddr>)) -> Addr {
    match t.2 {
        Some(a) => Addr::In(a),
        None => Addr::Un(t.1.clone()),
    }
}
/// target, cancel after this many polls (0: never), say hello
fn c_conn(i: usize, o: &Op, cx: &mut Context<'_>) -> Poll<()> {
    if let Pend::Hello { .. } = &n().tasks[i].pend {
        return hello(i, cx);
    }
    let tg = n().targets[o.a[0] as usize % n().targets.len()].clone();
    if tg.0 == 9 {
        return Poll::Ready(());
    }
    let first = matches!(n().tasks[i].pend, Pend::None);
    if first {
        n().tasks[i].pend = if tg.0 == 0 { Pend::ConnT { fut: Some(tcp_connect(tg.2.unwrap())), polls: 0 } } else { Pend::ConnU { fut: Some(unix_connect(tg.1.clone())), polls: 0 } };
    }
    enum Fu {
        T(Fut<Io<Async<TcpStream>>>),
        U(Fut<Io<Async<UnixStream>>>),
    }
    let (mut fu, np) = match &mut n().tasks[i].pend {
        Pend::ConnT { fut, polls } => {
            *polls += 1;
            (Fu::T(fut.take().unwrap()), *polls)
        }
        Pend::ConnU { fut, polls } => {
            *polls += 1;
            (Fu::U(fut.take().unwrap()), *polls)
        }
        _ => unreachable!(),
    };
    if first {
        io_clear();
        n().tasks[i].pfile = usize::MAX;
    }
    own_clear();
    let r: Poll<Io<(Rc<dyn StreamH>, bool)>> = match &mut fu {
        Fu::T(x) => x.as_mut().poll(cx).map(|r| r.map(|s| (Rc::new(ArcS(Arc::new(s))) as Rc<dyn StreamH>, true))),
        Fu::U(x) => x.as_mut().poll(cx).map(|r| r.map(|s| (Rc::new(ArcS(Arc::new(s))) as Rc<dyn StreamH>, false))),
    };
    if first {
        // Which socket it made.
        let recs = io_recs();
        let socks: Vec<&IoRec> = recs.iter().filter(|r| r.kind == b's').collect();
        let conns: Vec<&IoRec> = recs.iter().filter(|r| r.kind == b'c').collect();
        let abs = tg.1.first() == Some(&0);
        let toolong = if abs { tg.1.len() > 108 } else { tg.1.len() > 107 || tg.1.contains(&0) };
        if toolong {
            match &r {
                Poll::Ready(Err(e)) if e.kind() == io::ErrorKind::InvalidInput || e.raw_os_error().is_some() => {
                    drop_conn(i, fu_any(fu));
                    return Poll::Ready(());
                }
                _ => violate("A04", "WRONG_RESULT", "connecting to an impossible path did not fail"),
            }
        }
        if let Some(s) = socks.iter().find(|s| s.ret < 0) {
            let ok = matches!(&r, Poll::Ready(Err(e)) if e.raw_os_error() == Some(-s.ret as i32));
            if !ok {
                violate("A04", "WRONG_RESULT", &format!("creating the socket failed with {} but connect returned {:?}", s.ret, r.map(|x| x.map(|_| ()))));
            }
            drop_conn(i, fu_any(fu));
            return Poll::Ready(());
        }
        if socks.len() != 1 || conns.len() != 1 || conns[0].file != socks[0].new {
            violate("A04", "WRONG_CALL", &format!("connect made {} sockets and {} connection attempts", socks.len(), conns.len()));
        }
        if conns[0].addr != addr_of(&tg) {
            violate("A04", "WRONG_ADDRESS", &format!("connect to {:?} went to {:?}", addr_of(&tg), conns[0].addr));
        }
        n().tasks[i].pfile = socks[0].new;
        let c = conns[0].ret;
        if c < 0 && !matches!(-c as i32, libc::EINPROGRESS | libc::EAGAIN) {
            match &r {
                Poll::Ready(Err(e)) if e.raw_os_error() == Some(-c as i32) => {}
                _ => violate("A04", "WRONG_RESULT", &format!("the connection attempt failed with {} but connect returned {:?}", c, r.map(|x| x.map(|_| ())))),
            }
            drop_conn(i, fu_any(fu));
            conn_closed(i);
            return Poll::Ready(());
        }
    }
    fn fu_any(f: Fu) -> Box<dyn FnOnce()> {
        match f {
            Fu::T(x) => Box::new(move || drop_fut(x)),
            Fu::U(x) => Box::new(move || drop_fut(x)),
        }
    }
    let file = n().tasks[i].pfile;
    if check_own("connect", file, errof(&r), false) {
        drop_conn(i, fu_any(fu));
        conn_closed(i);
        obligation();
        return Poll::Ready(());
    }
    match r {
        Poll::Pending => {
            if o.a[1] != 0 && np >= o.a[1] {
                k().count(f::CANCEL);
                drop_conn(i, fu_any(fu));
                conn_closed(i);
                return Poll::Ready(());
            }
            n().tasks[i].wait = Some((file, 1));
            // Once the outcome is decided the task must finish soon.
            let opn = n().tasks[i].opn;
            if k().conn_log.contains_key(&file) {
                conn_oblige(i, opn, file);
            }
            match (&mut n().tasks[i].pend, fu) {
                (Pend::ConnT { fut, .. }, Fu::T(x)) => *fut = Some(x),
                (Pend::ConnU { fut, .. }, Fu::U(x)) => *fut = Some(x),
                _ => unreachable!(),
            }
            Poll::Pending
        }
        Poll::Ready(Err(e)) => {
            drop_conn(i, fu_any(fu));
            let failed = k().vfs.files[file].add_fail > 0 && e.raw_os_error() != Some(libc::EAGAIN);
            let ok = failed || match k().conn_log.get(&file) {
                Some((0, _, _)) => false,
                Some((en, _, _)) => e.raw_os_error() == Some(*en),
                // A full Unix backlog leaves the socket unconnected; a refused registration or mode change.
                None => tg.0 == 1 && e.raw_os_error() == Some(libc::ENOTCONN),
            };
            // An established connection may have been reset since.
            if !ok {
                violate("A04", "WRONG_RESULT", &format!("connect returned {:?} but the outcome was {:?}", e, k().conn_log.get(&file)));
            }
            conn_closed(i);
            obligation();
            Poll::Ready(())
        }
        Poll::Ready(Ok((h, _))) => {
            drop_conn(i, fu_any(fu));
            if k().vfs.file_of(h.raw()) != Some(file) {
                violate("A04", "WRONG_RESULT", "connect returned another socket");
            }
            match k().conn_log.get(&file) {
                Some((0, _, _)) => {}
                x => violate("A04", "WRONG_RESULT", &format!("connect returned Ok but the outcome was {:?}", x)),
            }
            if k().vfs.is_sock(file) && k().vfs.sock(file).paddr != addr_of(&tg) {
                violate("A04", "WRONG_ADDRESS", &format!("connected to {:?} instead of {:?}", k().vfs.sock(file).paddr, addr_of(&tg)));
            }
            if !k().vfs.files[file].nonblock || k().vfs.files[file].watchers.is_empty() {
                violate("A04,H01", "NOT_REGISTERED", "the connected handle is not registered or not in non-blocking mode");
            }
            obligation();
            n().tasks[i].pend = Pend::Hello { h: Some(h), file };
            if o.a[2] == 0 {
                n().tasks[i].pend = Pend::None;
                return Poll::Ready(());
            }
            hello(i, cx)
        }
    }
}
fn conn_oblige(i: usize, opn: u64, file: usize) {
    if n().tasks[i].oblig == Some((u64::MAX, opn)) {
        return;
    }
    let t = now();
    expect(t, "A04", "CONNECT_STUCK", move || {
        let x = &n().tasks[i];
        if x.done || x.opn != opn || !matches!(x.pend, Pend::ConnT { .. } | Pend::ConnU { .. }) {
            return None;
        }
        Some(format!("task {}: the outcome of connecting file {} is known since {} but connect has not returned", i, file, t))
    });
}
fn drop_conn(_i: usize, d: Box<dyn FnOnce()>) {
    d();
}
fn conn_closed(i: usize) {
    let file = n().tasks[i].pfile;
    if file != usize::MAX && !matches!(k().vfs.files[file].kind, Kind::Closed) && k().vfs.files[file].refs > 0 {
        violate("A04,H02", "FD_LEAK", &format!("a failed or cancelled connect left its socket (file {}) open", file));
    }
}
fn tagbyte(file: usize) -> u8 {
    (file as u8).wrapping_mul(37).wrapping_add(11)
}
/// Send one byte that tells which client this is.
fn hello(i: usize, cx: &mut Context<'_>) -> Poll<()> {
    let Pend::Hello { h, file } = &n().tasks[i].pend else { unreachable!() };
    let (h, file) = (h.clone().unwrap(), *file);
    loop {
        io_clear();
        let r = h.pwrite(cx, &[tagbyte(file)]);
        let recs = io_recs();
        check_poll("write", file, b"w", &recs, &r, true);
        match r {
            Poll::Pending => {
                n().tasks[i].wait = Some((file, 1));
                return Poll::Pending;
            }
            Poll::Ready(Err(e)) if e.kind() == io::ErrorKind::Interrupted || own_fail() => continue,
            _ => {
                n().tasks[i].pend = Pend::None;
                drop_it(h);
                return Poll::Ready(());
            }
        }
    }
}
/// listener, mode (0 accept, 1 incoming), cancel after, serve
fn c_acc(i: usize, o: &Op, cx: &mut Context<'_>) -> Poll<()> {
    if let Pend::Serve { .. } = &n().tasks[i].pend {
        return serve(i, cx);
    }
    let li = o.a[0] as usize % 4;
    let (tcp, unix) = (n().ls[li].tcp.clone(), n().ls[li].unix.clone());
    if tcp.is_none() && unix.is_none() {
        return Poll::Ready(());
    }
    let lfile = n().ls[li].file;
    let first = matches!(n().tasks[i].pend, Pend::None);
    if first {
        n().tasks[i].pend = if o.a[1] % 2 == 1 {
            let t = &mut *n().tasks[i];
            while t.strm_t.len() < 4 {
                t.strm_t.push(None);
                t.strm_u.push(None);
            }
            if let Some(l) = &tcp {
                if n().tasks[i].strm_t[li].is_none() {
                    let s = tcp_incoming(l);
                    n().tasks[i].strm_t[li] = Some(s);
                }
            }
            if let Some(l) = &unix {
                if n().tasks[i].strm_u[li].is_none() {
                    let s = unix_incoming(l);
                    n().tasks[i].strm_u[li] = Some(s);
                }
            }
            Pend::AccS { polls: 0 }
        } else if let Some(l) = &tcp {
            Pend::AccT { fut: Some(tcp_accept(l)), polls: 0 }
        } else {
            Pend::AccU { fut: Some(unix_accept(unix.as_ref().unwrap())), polls: 0 }
        };
    }
    drop_it(tcp);
    drop_it(unix);
    enum Fu {
        T(Fut<Io<(Async<TcpStream>, SocketAddr)>>),
        U(Fut<Io<(Async<UnixStream>, std::os::unix::net::SocketAddr)>>),
        ST(Strm<Io<Async<TcpStream>>>),
        SU(Strm<Io<Async<UnixStream>>>),
    }
    let (mut fu, np) = match &mut n().tasks[i].pend {
        Pend::AccT { fut, polls } => {
            *polls += 1;
            (Fu::T(fut.take().unwrap()), *polls)
        }
        Pend::AccU { fut, polls } => {
            *polls += 1;
            (Fu::U(fut.take().unwrap()), *polls)
        }
        Pend::AccS { polls } => {
            *polls += 1;
            let p = *polls;
            let t = &mut *n().tasks[i];
            match t.strm_t[li].take() {
                Some(s) => (Fu::ST(s), p),
                None => (Fu::SU(t.strm_u[li].take().expect("HARNESS stream")), p),
            }
        }
        _ => unreachable!(),
    };
    io_clear();
    let st = |s: Async<TcpStream>| Rc::new(ArcS(Arc::new(s))) as Rc<dyn StreamH>;
    let su = |s: Async<UnixStream>| Rc::new(ArcS(Arc::new(s))) as Rc<dyn StreamH>;
    let r: Poll<Option<Io<(Rc<dyn StreamH>, Option<Addr>)>>> = match &mut fu {
        Fu::T(x) => x.as_mut().poll(cx).map(|r| Some(r.map(|(s, a)| (st(s), Some(Addr::In(a)))))),
        Fu::U(x) => x.as_mut().poll(cx).map(|r| Some(r.map(|(s, a)| (su(s), Some(if a.is_unnamed() { Addr::None } else { Addr::Un(vec![1]) }))))),
        Fu::ST(x) => x.as_mut().poll_next(cx).map(|r| r.map(|r| r.map(|s| (st(s), None)))),
        Fu::SU(x) => x.as_mut().poll_next(cx).map(|r| r.map(|r| r.map(|s| (su(s), None)))),
    };
    let recs = io_recs();
    let accs: Vec<&IoRec> = recs.iter().filter(|r| r.kind == b'a').collect();
    let okrec: Vec<&&IoRec> = accs.iter().filter(|r| r.ret >= 0).collect();
    let stash = |fu: Fu, keep: bool| {
        let t = &mut *n().tasks[i];
        match fu {
            Fu::ST(s) => t.strm_t[li] = Some(s),
            Fu::SU(s) => t.strm_u[li] = Some(s),
            Fu::T(x) => {
                if keep {
                    if let Pend::AccT { fut, .. } = &mut t.pend {
                        *fut = Some(x);
                    }
                } else {
                    drop_fut(x)
                }
            }
            Fu::U(x) => {
                if keep {
                    if let Pend::AccU { fut, .. } = &mut t.pend {
                        *fut = Some(x);
                    }
                } else {
                    drop_fut(x)
                }
            }
        }
    };
    for r in &accs {
        if r.file != lfile {
            violate("A05", "WRONG_CALL", "accept was called on another socket");
        }
    }
    let r = match r {
        Poll::Ready(None) => violate("A05", "STREAM_ENDED", "the incoming stream ended"),
        Poll::Ready(Some(r)) => Poll::Ready(r),
        Poll::Pending => Poll::Pending,
    };
    if check_own("accept", lfile, errof(&r), accs.iter().any(|r| r.ret != EAGAIN)) {
        stash(fu, false);
        obligation();
        return Poll::Ready(());
    }
    match r {
        Poll::Pending => {
            if accs.iter().any(|r| r.ret != EAGAIN) {
                violate("A05", "LOST_CONNECTION", &format!("accept on listener {} is pending although a call returned {:?}", li, accs.iter().map(|r| r.ret).collect::<Vec<_>>()));
            }
            if first && accs.is_empty() {
                violate("A05,A01", "NOT_TRIED", "accept waits without having tried");
            }
            if o.a[2] != 0 && np >= o.a[2] {
                k().count(f::CANCEL);
                if o.a[1] % 4 == 3 {
                    // Drop the stream as well.
                    match fu {
                        Fu::ST(s) => drop_it(s),
                        Fu::SU(s) => drop_it(s),
                        x => stash(x, false),
                    }
                } else {
                    stash(fu, false);
                }
                return Poll::Ready(());
            }
            stash(fu, true);
            n().tasks[i].wait = Some((lfile, 0));
            Poll::Pending
        }
        Poll::Ready(Err(e)) => {
            stash(fu, false);
            let last = accs.last().map_or(0, |r| r.ret);
            if okrec.is_empty() {
                if last >= 0 || e.raw_os_error() != Some(-last as i32) || last == EAGAIN {
                    violate("A05", "WRONG_ERROR", &format!("accept returned {:?} after calls with the results {:?}", e, accs.iter().map(|r| r.ret).collect::<Vec<_>>()));
                }
            } else {
                // The connection was accepted but its handle could not be created.
                let q = okrec[0].new;
                if k().vfs.files[q].add_fail + k().vfs.files[q].nb_fail == 0 || okrec.len() != 1 {
                    violate("A05", "LOST_CONNECTION", &format!("an accepted connection was replaced by the error {:?}", e));
                }
                if k().vfs.files[q].refs > 0 {
                    violate("A05,H02", "FD_LEAK", "a connection whose handle could not be created stayed open");
                }
                n().ls[li].lost += 1;
            }
            obligation();
            Poll::Ready(())
        }
        Poll::Ready(Ok((h, a))) => {
            stash(fu, false);
            if okrec.len() != 1 || accs.last().unwrap().ret < 0 {
                violate("A05", "LOST_CONNECTION", &format!("one item after calls with the results {:?}", accs.iter().map(|r| r.ret).collect::<Vec<_>>()));
            }
            let q = okrec[0].new;
            if k().vfs.file_of(h.raw()) != Some(q) {
                violate("A05", "WRONG_CONNECTION", "the item is not the connection that was accepted");
            }
            if !n().ls[li].got.insert(q) {
                violate("A05", "DUPLICATE", "a connection was returned twice");
            }
            if let Some(a) = a {
                let want = &okrec[0].addr;
                let ok = match (want, &a) {
                    (Addr::In(x), Addr::In(y)) => x == y,
                    (Addr::None, Addr::None) => true,
                    (Addr::Un(_), Addr::Un(_)) => true,
                    _ => false,
                };
                if !ok {
                    violate("A05", "WRONG_PEER", &format!("peer address {:?} reported as {:?}", want, a));
                }
            }
            if !k().vfs.files[q].nonblock {
                violate("A05,H01", "BLOCKING", "an accepted handle is in blocking mode");
            }
            if k().vfs.files[q].watchers.is_empty() {
                violate("A05,H01", "NOT_REGISTERED", "an accepted handle is not registered");
            }
            obligation();
            if o.a[3] == 0 {
                drop_it(h);
                return Poll::Ready(());
            }
            n().tasks[i].pend = Pend::Serve { h: Some(h), file: q };
            serve(i, cx)
        }
    }
}
/// Read the byte that tells which client it is.
fn serve(i: usize, cx: &mut Context<'_>) -> Poll<()> {
    let Pend::Serve { h, file } = &n().tasks[i].pend else { unreachable!() };
    let (h, file) = (h.clone().unwrap(), *file);
    loop {
        let mut b = [0u8; 4];
        io_clear();
        let r = h.pread(cx, &mut b);
        let recs = io_recs();
        check_poll("read", file, b"r", &recs, &r, true);
        match r {
            Poll::Pending => {
                n().tasks[i].wait = Some((file, 0));
                return Poll::Pending;
            }
            Poll::Ready(Err(e)) if e.kind() == io::ErrorKind::Interrupted || own_fail() => continue,
            Poll::Ready(x) => {
                if let Ok(1..) = x {
                    let c = k().srv_log.get(&file).map_or(0, |x| x.0);
                    if b[0] != tagbyte(c) {
                        violate("A05", "WRONG_CONNECTION", "data of another connection arrived");
                    }
                }
                n().tasks[i].pend = Pend::None;
                drop_it(h);
                return Poll::Ready(());
            }
        }
    }
}

// ---------------------------------------------------------------- scripted operations
fn ofile(x: u64) -> Option<usize> {
    let x = x as usize;
    match x {
        0..=3 => n().devs.get(x).filter(|d| d.0.is_some()).map(|d| d.1),
        4..=15 => n().tasks.get(x - 4).filter(|t| t.pdev.is_some() || t.pfile != usize::MAX).map(|t| t.pfile),
        _ => n().tasks.get(x - 16).filter(|t| t.scr.is_some()).map(|t| t.sfile),
    }
}
fn mkdev() -> (VDev, usize) {
    let (fd, file) = vfs::dev_new(true, false).expect("HARNESS device");
    (unsafe { VDev::from_fd(fd) }, file)
}
fn o_setup(p: &Prog) {
    for _ in 0..p.cfg.get("devs", 2) {
        let (v, file) = mkdev();
        let d = dev_new(v).unwrap_or_else(|e| violate("A01,H02", "SETUP", &format!("creating a handle failed: {}", e)));
        n().devs.push((Some(Arc::new(d)), file));
    }
    for i in 0..n().tasks.len() {
        n().tasks[i].pfile = usize::MAX;
        if n().tasks[i].ops.iter().any(|o| o.code == "omut") {
            let (v, file) = mkdev();
            n().tasks[i].pdev = Some(dev_new(v).unwrap_or_else(|e| violate("A01,H02", "SETUP", &format!("creating a handle failed: {}", e))));
            n().tasks[i].pfile = file;
        }
        if n().tasks[i].ops.iter().any(|o| o.code == "oscr") {
            let (v, file) = mkdev();
            let fd: OwnedFd = v.into();
            let sh: *mut ScrSh = Box::into_raw(Box::new(ScrSh { left: 0, res: 0, kind: 0, calls: 0, after: false, bad_kind: false }));
            let s = Scripted {
                fd,
                next: std::cell::UnsafeCell::new(Box::new(move |kd, len| {
                    let s = unsafe { &mut *sh };
                    s.calls += 1;
                    user_point();
                    if kd != s.kind || (matches!(kd, b'r' | b'w') && len != 4) || (matches!(kd, b'R' | b'W') && len != 2) {
                        s.bad_kind = true;
                    }
                    if s.left > 0 {
                        s.left -= 1;
                        return Err(wouldblock(s.res));
                    }
                    if s.after {
                        violate(tag("A01"), "CALLED_AGAIN", "the operation was invoked again after its final result");
                    }
                    s.after = true;
                    scripted(s.res).map(|x| x as usize)
                })),
            };
            n().tasks[i].scr = Some(Box::new(scr_new(s).unwrap_or_else(|e| violate("A01,H02", "SETUP", &format!("creating a handle failed: {}", e)))));
            n().tasks[i].scr_sh = sh;
            n().tasks[i].sfile = file;
        }
    }
}
fn wouldblock(r: u64) -> io::Error {
    if r % 2 == 0 {
        io::Error::from_raw_os_error(libc::EAGAIN)
    } else {
        io::Error::new(io::ErrorKind::WouldBlock, "scripted")
    }
}
const ERRNOS: [i32; 8] = [libc::EINTR, libc::ECONNRESET, libc::EIO, libc::EINVAL, libc::ENOTCONN, libc::ENOMEM, libc::ETIMEDOUT, libc::EINPROGRESS];
const KINDS: [io::ErrorKind; 7] = [
    io::ErrorKind::Interrupted,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::InvalidData,
    io::ErrorKind::BrokenPipe,
];
fn scripted(r: u64) -> Io<u64> {
    match r % 4 {
        0 => Err(io::Error::from_raw_os_error(ERRNOS[(r / 4) as usize % 8])),
        1 => Err(io::Error::new(KINDS[(r / 4) as usize % 7], format!("m{}", r))),
        _ => Ok(r / 4 % 1000),
    }
}
fn check_scripted(what: &str, want: u64, got: &Io<u64>, unit: bool) {
    let w = scripted(want);
    let ok = match (&w, got) {
        (Ok(a), Ok(b)) => a == b || unit,
        (Err(a), Err(b)) => a.kind() == b.kind() && a.raw_os_error() == b.raw_os_error() && a.to_string() == b.to_string(),
        _ => false,
    };
    if !ok {
        violate(tag("A01"), "RESULT_CHANGED", &format!("{}: the operation returned {:?} but the caller got {:?}", what, w, got));
    }
}
fn delivered(file: usize, dir: usize) -> u64 {
    k().vfs.files[file].delivered[dir]
}
/// device (oop), direction, WouldBlock results first, final result, cancel after
fn o_op(i: usize, o: &Op, cx: &mut Context<'_>) -> Poll<()> {
    let dir = (o.a[1] % 2) as usize;
    let nwb = o.a[2] % 8;
    let first = matches!(n().tasks[i].pend, Pend::None);
    let mt = o.code == "omut";
    let file;
    if first {
        let mut sh: Box<OpSh> = Box::new(OpSh { calls: 0, after: false, d0: 0, m0: 0, polls: 0, base: 0 });
        let shp = &mut *sh as *mut OpSh;
        let res = o.a[3];
        let op: simg::Op = Box::new(move |v: &VDev| {
            let s = unsafe { &mut *shp };
            let _ = v.as_raw_fd();
            s.calls += 1;
            user_point();
            if s.after {
                violate(tag("A01"), "CALLED_AGAIN", "the operation was invoked again after its final result");
            }
            if s.calls <= nwb {
                return Err(wouldblock(res));
            }
            s.after = true;
            scripted(res)
        });
        let (mut fut, mut mfut) = (None, None);
        if mt {
            let Some(d) = n().tasks[i].pdev.take() else { return Poll::Ready(()) };
            mfut = Some(if dir == 0 { dev_read_with_mut(d, op) } else { dev_write_with_mut(d, op) });
        } else {
            let Some(Some(d)) = n().devs.get(o.a[0] as usize % n().devs.len()).map(|x| x.0.clone()) else { return Poll::Ready(()) };
            fut = Some(if dir == 0 { dev_read_with(&d, op) } else { dev_write_with(&d, op) });
            drop_it(d);
        }
        n().tasks[i].pend = Pend::Oper { fut, mfut, sh };
    }
    file = if mt { n().tasks[i].pfile } else { n().devs[o.a[0] as usize % n().devs.len()].1 };
    let Pend::Oper { fut, mfut, sh } = &mut n().tasks[i].pend else { unreachable!() };
    let (mut fut, mut mfut) = (fut.take(), mfut.take());
    let sh = &mut **sh as *mut OpSh;
    let s = unsafe { &mut *sh };
    if first {
        s.d0 = delivered(file, dir);
        s.m0 = k().vfs.files[file].mod_fail;
        // An event already taken from the system but not yet processed can count once more.
        // A wait given up earlier by this task may still wake it.
        s.base = 3 + n().tasks[i].gaveup;
    }
    s.polls += 1;
    let mut back = None;
    own_clear();
    let r = if let Some(x) = &mut fut {
        x.as_mut().poll(cx)
    } else {
        mfut.as_mut().unwrap().as_mut().poll(cx).map(|(d, r)| {
            back = Some(d);
            r
        })
    };
    let s = unsafe { &mut *sh };
    if s.calls == 0 {
        violate(tag("A01"), "NOT_TRIED", "an operation was polled but not invoked");
    }
    // Waits that cannot be registered anew after an event are given up by waking them.
    let mf = k().vfs.files[file].mod_fail - s.m0;
    if !n().stop && s.calls > s.base + mf + delivered(file, dir) - s.d0 {
        violate(
            tag("A01"),
            "SPIN",
            &format!("task {}: the operation was invoked {} times although only {} readiness events for {} were reported since it began", i, s.calls, delivered(file, dir) - s.d0, if dir == 0 { "reading" } else { "writing" }),
        );
    }
    let owned = check_own("an operation", file, errof(&r), s.after);
    match r {
        Poll::Pending => {
            if s.after {
                violate(tag("A01"), "RESULT_LOST", "an operation is pending after its final result");
            }
            if o.a[4] != 0 && s.polls >= o.a[4] && !n().stop {
                k().count(f::CANCEL);
                n().tasks[i].gaveup += 1;
                if let Some(x) = fut {
                    drop_fut(x);
                }
                if let Some(x) = mfut {
                    // The handle goes with the future.
                    drop_it(x);
                    n().tasks[i].pfile = usize::MAX;
                }
                return Poll::Ready(());
            }
            n().tasks[i].wait = Some((file, dir));
            if let Pend::Oper { fut: a, mfut: b, .. } = &mut n().tasks[i].pend {
                *a = fut;
                *b = mfut;
            }
            Poll::Pending
        }
        Poll::Ready(r) => {
            if !owned {
                if !s.after || s.calls != nwb + 1 {
                    violate(tag("A01"), "RESULT_INVENTED", &format!("the operation returned {:?} after {} calls of which {} were to block", r, s.calls, nwb));
                }
                check_scripted("read_with/write_with", o.a[3], &r, false);
            }
            obligation();
            if let Some(x) = fut {
                drop_fut(x);
            }
            if let Some(x) = mfut {
                drop_it(x);
            }
            if let Some(d) = back {
                n().tasks[i].pdev = Some(d);
            }
            Poll::Ready(())
        }
    }
}
/// kind, through a reference, WouldBlock results first, final result, give up after
fn o_scr(i: usize, o: &Op, cx: &mut Context<'_>) -> Poll<()> {
    let kind = b"rRwWfc"[o.a[0] as usize % 6];
    let dir = if matches!(kind, b'r' | b'R') { 0 } else { 1 };
    let first = matches!(n().tasks[i].pend, Pend::None);
    if n().tasks[i].scr.is_none() {
        return Poll::Ready(());
    }
    let file = n().tasks[i].sfile;
    let sh = unsafe { &mut *n().tasks[i].scr_sh };
    if first {
        *sh = ScrSh { left: o.a[2] % 8, res: o.a[3], kind: if kind == b'c' { b'f' } else { kind }, calls: 0, after: false, bad_kind: false };
        n().tasks[i].pend = Pend::Oper { fut: None, mfut: None, sh: Box::new(OpSh { calls: 0, after: false, d0: delivered(file, dir), m0: k().vfs.files[file].mod_fail, polls: 0, base: 3 + n().tasks[i].gaveup }) };
    }
    let Pend::Oper { sh: os, .. } = &mut n().tasks[i].pend else { unreachable!() };
    os.polls += 1;
    let (d0, base, polls) = (os.d0, os.base + k().vfs.files[file].mod_fail - os.m0, os.polls);
    let s = unsafe { &mut *(&mut **n().tasks[i].scr.as_mut().unwrap() as *mut Scr) };
    own_clear();
    let mf0 = k().vfs.files[file].mod_fail;
    let r = scr_poll(s, kind, o.a[1] != 0, cx);
    let base = base + k().vfs.files[file].mod_fail - mf0;
    let sh = unsafe { &mut *n().tasks[i].scr_sh };
    if sh.calls == 0 {
        violate(tag("A01"), "NOT_TRIED", "an operation was polled but not invoked");
    }
    if sh.bad_kind {
        violate(tag("A01"), "WRONG_CALL", "poll_read/poll_write and their relatives invoked another operation of the handle, or with other buffers");
    }
    // An event is first answered by the poll it causes and then, once more, by poll_readable's own record of it.
    if !n().stop && sh.calls > base + 2 * (delivered(file, dir) - d0) {
        violate(tag("A01"), "SPIN", &format!("task {}: the operation was invoked {} times although only {} readiness events were reported since it began", i, sh.calls, delivered(file, dir) - d0));
    }
    let owned = check_own("an operation", file, errof(&r), sh.after);
    match r {
        Poll::Pending => {
            if sh.after {
                violate(tag("A01"), "RESULT_LOST", "an operation is pending after its final result");
            }
            if o.a[4] != 0 && polls >= o.a[4] && !n().stop {
                k().count(f::CANCEL);
                n().tasks[i].gaveup += 1;
                return Poll::Ready(());
            }
            n().tasks[i].wait = Some((file, dir));
            Poll::Pending
        }
        Poll::Ready(r) => {
            if !owned {
                if !sh.after {
                    violate(tag("A01"), "RESULT_INVENTED", &format!("the operation returned {:?} before its final result", r));
                }
                check_scripted("poll_*", o.a[3], &r.map(|x| x as u64), matches!(kind, b'f' | b'c'));
            }
            obligation();
            Poll::Ready(())
        }
    }
}

// ---------------------------------------------------------------- running
fn cancel(i: usize, p: Pend) {
    match p {
        Pend::DgSend { fut: Some(x), .. } => drop_fut(x),
        Pend::DgRecvU { fut: Some(x), .. } => drop_fut(x),
        Pend::DgRecvX { fut: Some(x), .. } => drop_fut(x),
        Pend::ConnT { fut: Some(x), .. } => {
            drop_fut(x);
            conn_closed(i);
        }
        Pend::ConnU { fut: Some(x), .. } => {
            drop_fut(x);
            conn_closed(i);
        }
        Pend::AccT { fut: Some(x), .. } => drop_fut(x),
        Pend::AccU { fut: Some(x), .. } => drop_fut(x),
        Pend::Hello { h: Some(x), .. } | Pend::Serve { h: Some(x), .. } => drop_it(x),
        Pend::Sleep(t) => drop(t),
        _ => {}
    }
}
fn finish_task(i: usize) {
    let t = &mut *n().tasks[i];
    let (a, b) = (std::mem::take(&mut t.strm_t), std::mem::take(&mut t.strm_u));
    drop_it(a);
    drop_it(b);
    let d = n().tasks[i].pdev.take();
    drop_it(d);
    if let Some(s) = n().tasks[i].scr.take() {
        scr_drop(*s);
    }
    if n().fam == "stream" {
        let (l, e) = end_of(i);
        if l < n().links.len() {
            end(l, e).users -= 1;
            if end(l, e).users == 0 {
                close_end(l, e);
            }
        }
    }
}
pub fn run(p: &Prog) {
    let fm = gen::base(&p.family);
    let prop = match p.family.as_str() {
        x if x != fm => "F01",
        "ops" => "A01",
        "stream" => "A02",
        "dgram" => "A03",
        "conn" => "A04",
        _ => "A05",
    };
    let fam: &'static str = Box::leak(fm.to_string().into_boxed_str());
    let nth = p.cfg.get("threads", 2).clamp(1, 4) as usize;
    unsafe {
        NP = Box::into_raw(Box::new(NetW {
            fam,
            prop,
            bound: p.cfg.get("bound", 100 * MS),
            tasks: vec![],
            ths: (0..nth).map(|_| Thx::default()).collect(),
            links: vec![],
            dgs: vec![],
            ls: vec![],
            targets: vec![],
            devs: vec![],
            stop: false,
            blockon: false,
            ids: 0,
            seq: 0,
        }))
    };
    let nt = p.ops.iter().map(|o| o.th as usize + 1).max().unwrap_or(0).max(if fam == "stream" { 4 * p.cfg.get("links", 1) as usize } else { 0 });
    for i in 0..nt {
        let ops: Vec<Op> = p.ops.iter().filter(|o| o.th as usize == i).cloned().collect();
        let (wid, h) = new_waker(&format!("task {}", i));
        on_wake(wid, move || woken(i));
        let th = p.cfg.get(&format!("on{}", i), i as u64) as usize % nth;
        n().tasks.push(Box::new(Task {
            ops,
            pc: 0,
            th,
            wid,
            h: Some(h),
            c0: 0,
            polls: 0,
            first: true,
            stopped: false,
            done: false,
            wait: None,
            oblig: None,
            opn: 0,
            gaveup: 0,
            pend: Pend::None,
            dead: false,
            zero: false,
            pdev: None,
            pfile: usize::MAX,
            scr: None,
            scr_sh: std::ptr::null_mut(),
            sfile: 0,
            strm_t: vec![],
            strm_u: vec![],
        }));
        n().ths[th].tasks.push(i);
    }
    // Set-up is free of faults.
    let on = k().faults_on;
    k().faults_on = false;
    match fam {
        "ops" => o_setup(p),
        "stream" => s_setup(p),
        "dgram" => d_setup(p),
        _ => c_setup(p),
    }
    k().faults_on = on;
    if fam == "stream" {
        for i in 0..nt {
            let (l, e) = end_of(i);
            if l < n().links.len() {
                end(l, e).users += 1;
            }
        }
    }
    k().on_changed = Some(on_changed);
    let mut hs = vec![];
    for th in 0..nth {
        let bo = p.cfg.get(&format!("bo{}", th), 0) != 0;
        hs.push(spawn(&format!("user{}", th), move || run_thread(th, bo)));
    }
    let t_end = now() + p.cfg.get("horizon", 4 * SEC);
    let done = |d: u64| wait_cond(Some(d), &mut || n().tasks.iter().all(|t| t.done));
    if !done(t_end) {
        // Let obligations ripen, then end it: streams are shut down, devices become ready, the rest is cancelled.
        sleep(3 * n().bound);
        log(|| "end of the run: stopping what is left".to_string());
        faults_off();
        n().stop = true;
        for l in 0..n().links.len() {
            n().links[l].dirty = true;
            for e in 0..2 {
                if !end(l, e).closed {
                    vfs::shutdown(end(l, e).file, libc::SHUT_RDWR);
                }
            }
        }
        for i in 0..n().tasks.len() {
            let (a, b) = (n().tasks[i].pfile, n().tasks[i].sfile);
            if fam == "ops" {
                for fl in [a, b] {
                    if fl != usize::MAX && vfs_is_dev(fl) {
                        vfs::dev_set(fl, 0, 1000);
                        vfs::dev_set(fl, 1, 1000);
                    }
                }
            }
        }
        for d in 0..n().devs.len() {
            vfs::dev_set(n().devs[d].1, 0, 1000);
            vfs::dev_set(n().devs[d].1, 1, 1000);
        }
        signal();
        for th in 0..nth {
            if let Some(w) = n().ths[th].fwd.clone() {
                w.wake_by_ref();
            }
        }
        // From here tasks are polled when woken only.
        if !done(now() + 6 * SEC + slack()) {
            let l: Vec<String> = n().tasks.iter().enumerate().filter(|(_, t)| !t.done).map(|(i, t)| format!("task {} at {:?}", i, t.ops.get(t.pc).map(|o| (o.code, o.a)))).collect();
            violate(tag("R01"), "STUCK", &format!("not finished although nothing keeps them waiting: {}", l.join("; ")));
        }
    }
    for h in hs {
        let _ = h.join();
    }
    faults_off();
    k().on_changed = None;
    // Every connection came out exactly once or is still queued.
    for li in 0..n().ls.len() {
        let lf = n().ls[li].file;
        if lf == usize::MAX {
            continue;
        }
        sleep(10 * MS);
        let est = k().srv_log.values().filter(|x| x.1 == lf).count();
        let q = k().vfs.sock(lf).queue.len();
        let got = n().ls[li].got.len() + n().ls[li].lost as usize;
        if est != q + got {
            violate("A05", "LOST_CONNECTION", &format!("listener {}: {} connections were established, {} were returned, {} are queued", li, est, got, q));
        }
        let (a, b) = (n().ls[li].tcp.take(), n().ls[li].unix.take());
        drop_it(a);
        drop_it(b);
    }
    for s in 0..n().dgs.len() {
        let (a, b) = (n().dgs[s].udp.take(), n().dgs[s].udg.take());
        drop_it(a);
        drop_it(b);
    }
    for d in 0..n().devs.len() {
        let x = n().devs[d].0.take();
        drop_it(x);
    }
    let open = k().vfs.open_user_fds();
    if !open.is_empty() {
        violate(tag("H01,H02"), "FD_LEAK", &format!("descriptors {:?} are still open although every handle is gone", open));
    }
    // Wakers of finished waits are released.
    let t = Timer::after(Duration::from_millis(1));
    let mut t = t;
    let (fid, fw) = new_waker("last");
    for _ in 0..2 {
        let mut cx = Context::from_waker(&fw);
        // It can be due before the poll has returned.
        let c = wakes(fid);
        t.set_after(Duration::from_millis(1));
        if Pin::new(&mut t).poll(&mut cx).is_pending() {
            if !wait_cond(Some(now() + 2 * SEC), &mut || wakes(fid) > c) {
                violate("T02,B03", "TIMER_NOT_WOKEN", "a timer created at the end of the run was not served");
            }
        }
    }
    drop(t);
    sleep(2 * n().bound);
    for i in 0..n().tasks.len() {
        let w = n().tasks[i].wid;
        if refs(w) > 1 {
            violate(tag("R03"), "WAKER_LEAK", &format!("at the end of the run the waker of task {} is still referenced {} times by the runtime", i, refs(w) - 1));
        }
    }
    if k().vfs.epolls != 1 {
        violate("N01", "RUNTIMES", &format!("{} epoll instances were created", k().vfs.epolls));
    }
}
fn vfs_is_dev(f: usize) -> bool {
    matches!(k().vfs.files[f].kind, Kind::Dev(_))
}
#[allow(dead_code)]
fn unused(_: SSt) -> (bool, u64, u64) {
    (n().blockon, n().ids, n().seq)
}

// ---------------------------------------------------------------- generators
struct G {
    r: Rng,
    p: Prog,
}
impl G {
    fn op(&mut self, t: u64, code: &'static str, a: &[u64]) {
        self.p.ops.push(op(t as u32, code, a));
    }
    fn pause(&mut self, t: u64) {
        match self.r.below(10) {
            0..=2 => {
                let d = self.r.pick(&[0, 1_000, 60_000, MS, 5 * MS]);
                let d = self.r.below(d + 1);
                self.op(t, "nsleep", &[d])
            }
            3 => {
                let d = self.r.below(3 * MS);
                self.op(t, "nstall", &[d])
            }
            4 => self.op(t, "nyield", &[]),
            _ => {}
        }
    }
    fn threads(&mut self, nt: u64) {
        let nth = self.r.range(1, 3.min(nt.max(1)));
        self.p.cfg.set("threads", nth);
        for i in 0..nt {
            let x = self.r.below(nth);
            self.p.cfg.set(&format!("on{}", i), x);
        }
        for t in 0..nth {
            if self.r.chance(50) {
                self.p.cfg.set(&format!("bo{}", t), 1);
            }
        }
    }
}
pub fn gen(family: &str, mut r: Rng, mut cfg: Cfg) -> Prog {
    let seed = r.u64();
    noise(&mut r, &mut cfg, seed);
    if r.chance(40) {
        cfg.fault(f::EAGAIN, r.pick(&[50_000, 300_000]));
    }
    if r.chance(30) {
        cfg.fault(f::IO_EINTR, r.pick(&[30_000, 200_000]));
    }
    cfg.set("conv", r.below(16));
    if gen::base(family) != family {
        // Registrations that are refused.
        cfg.fault(f::CTL_MOD, r.pick(&[30_000, 200_000, 500_000]));
    }
    let mut g = G { r, p: Prog { family: family.to_string(), cfg, ops: vec![] } };
    match gen::base(family) {
        "ops" => gen_ops(&mut g),
        "stream" => gen_stream(&mut g),
        "dgram" => gen_dgram(&mut g),
        "conn" => gen_conn(&mut g, false),
        _ => gen_conn(&mut g, true),
    }
    g.p
}
fn gen_ops(g: &mut G) {
    let nt = g.r.range(1, 5);
    g.threads(nt);
    let nd = g.r.range(1, 3);
    g.p.cfg.set("devs", nd);
    g.p.cfg.set("horizon", SEC);
    for t in 0..nt {
        for _ in 0..g.r.range(2, 8) {
            let dir = g.r.below(2);
            let nwb = g.r.pick(&[0, 0, 1, 1, 2, 3, 5]);
            let res = if g.r.chance(10) { 2 } else { g.r.below(4000) };
            let canc = if g.r.chance(25) { g.r.range(1, 3) } else { 0 };
            match g.r.below(10) {
                0..=3 => {
                    let d = g.r.below(nd);
                    g.op(t, "oop", &[d, dir, nwb, res, canc])
                }
                4 | 5 => g.op(t, "omut", &[0, dir, nwb, res, canc]),
                6..=8 => {
                    let (kd, rf) = (g.r.below(6), g.r.below(2));
                    g.op(t, "oscr", &[kd, rf, nwb, res, canc])
                }
                _ => g.pause(t),
            }
        }
        for _ in 0..g.r.range(2, 6) {
            let x = match g.r.below(4) {
                0 | 1 => g.r.below(nd),
                2 => 4 + g.r.below(nt),
                _ => 16 + g.r.below(nt),
            };
            let (d, v) = (g.r.below(2), g.r.pick(&[0, 1, 1, 2]));
            let pos = g.r.below(g.p.ops.len() as u64 + 1) as usize;
            let o = if g.r.chance(60) {
                let m = g.r.pick(&[1, 30_000, MS, 20 * MS]);
                let dl = g.r.below(m);
                op(t as u32, "osetat", &[x, d, v, dl])
            } else {
                op(t as u32, "oset", &[x, d, v])
            };
            g.p.ops.insert(pos, o);
        }
    }
}
fn gen_stream(g: &mut G) {
    let nl = g.r.range(1, 2);
    g.p.cfg.set("links", nl);
    g.threads(4 * nl);
    let cap = g.r.pick(&[1, 4, 16, 64, 256]);
    g.p.cfg.set("rxcap", cap);
    let op_ = g.r.pick(&[1, 30, 60]);
    g.p.cfg.set("outpct", op_);
    if g.r.chance(50) {
        g.p.cfg.fault(f::SHORT_R, 200_000);
    }
    if g.r.chance(50) {
        g.p.cfg.fault(f::SHORT_W, 200_000);
    }
    if g.r.chance(60) {
        let m = g.r.pick(&[20_000, MS, 10 * MS]);
        g.p.cfg.set("netmax", m);
        g.p.cfg.fault(f::NET_DELAY, 500_000);
    }
    for l in 0..nl {
        let kd = g.r.below(4);
        g.p.cfg.set(&format!("link{}", l), kd);
        let excl = g.r.chance(30);
        for e in 0..2 {
            let base = 4 * l + 2 * e;
            if excl {
                for _ in 0..g.r.range(2, 8) {
                    let m = g.r.below(8);
                    let b = g.r.pick(&[1, 3, 8, 40, 200]);
                    let nby = g.r.pick(&[1, 2, 7, 30, 100]);
                    match g.r.below(9) {
                        0..=2 => {
                            let z = g.r.chance(15) as u64;
                            g.op(base, "swrite", &[nby, m, b, z])
                        }
                        3..=5 => g.op(base, "sread", &[nby, m, b]),
                        6 => g.op(base, "srewrap", &[0, 2]),
                        7 => g.pause(base),
                        _ => g.op(base, "sflush", &[m]),
                    }
                }
                if g.r.chance(70) {
                    g.op(base, "sshut", &[]);
                    g.op(base, "sread", &[u64::MAX, 2, 32]);
                }
                continue;
            }
            for _ in 0..g.r.range(1, 6) {
                let m = g.r.below(8);
                let b = g.r.pick(&[1, 3, 8, 40, 200]);
                let nby = g.r.pick(&[1, 2, 7, 30, 100, 300]);
                match g.r.below(12) {
                    0..=8 => {
                        let z = g.r.chance(15) as u64;
                        g.op(base, "swrite", &[nby, m, b, z])
                    }
                    9 => g.op(base, "sflush", &[m]),
                    _ => g.pause(base),
                }
            }
            if g.r.chance(80) {
                g.op(base, "sshut", &[]);
            }
            for _ in 0..g.r.range(0, 5) {
                let m = g.r.below(8);
                let b = g.r.pick(&[1, 3, 8, 40, 200]);
                let nby = g.r.pick(&[1, 2, 7, 30, 100]);
                match g.r.below(12) {
                    0..=5 => g.op(base + 1, "sread", &[nby, m, b]),
                    6 | 7 => g.op(base + 1, "speek", &[0, 0, b]),
                    8 => g.op(base + 1, "sready", &[]),
                    9 if g.r.chance(15) => g.op(base + 1, "sreset", &[]),
                    9 if g.r.chance(15) => g.op(base + 1, "sabort", &[]),
                    _ => g.pause(base + 1),
                }
            }
            if g.r.chance(85) {
                let b = g.r.pick(&[1, 8, 64]);
                let m = g.r.below(2);
                g.op(base + 1, "sread", &[u64::MAX, m, b]);
            }
        }
    }
}
fn gen_dgram(g: &mut G) {
    let kind = g.r.below(4);
    g.p.cfg.set("dgkind", kind);
    let ns = if kind == 2 { 2 } else { g.r.range(2, 4) };
    g.p.cfg.set("socks", ns);
    let c = g.r.below(3);
    g.p.cfg.set("connected", c);
    if g.r.chance(40) {
        g.p.cfg.set("unbound", 1);
    }
    let dc = g.r.pick(&[1, 2, 4, 16]);
    g.p.cfg.set("dcap", dc);
    let tc = g.r.pick(&[1, 10, 40, 200]);
    g.p.cfg.set("txcap", tc);
    let big = g.r.chance(12);
    for (x, c) in [(f::DG_DROP, 30), (f::DG_DUP, 30), (f::DG_REORD, 40), (f::NET_DELAY, 60)] {
        if g.r.chance(c) {
            g.p.cfg.fault(x, 200_000);
        }
    }
    let m = g.r.pick(&[20_000, MS, 10 * MS]);
    g.p.cfg.set("netmax", m);
    let nt = g.r.range(2, 6);
    g.threads(nt);
    g.p.cfg.set("horizon", SEC);
    for t in 0..nt {
        let snd = g.r.chance(50);
        let s = g.r.below(ns);
        for _ in 0..g.r.range(2, 10) {
            let s = if g.r.chance(70) { s } else { g.r.below(ns) };
            let canc = if g.r.chance(15) { g.r.range(1, 2) } else { 0 };
            match g.r.below(10) {
                0..=6 if snd => {
                    let conn = kind == 2 || c == 2 && kind < 2 || (c == 1 && s == 0 && kind < 2) || (kind == 3 && c != 0 && s == ns - 1);
                    let to = if conn && g.r.chance(85) { u64::MAX } else if g.r.chance(8) { ns } else { g.r.below(ns) };
                    let len = if big && g.r.chance(60) { g.r.pick(&[512, 1473, 8193, 20_000, 65_507, 65_508]) } else { g.r.below(48) };
                    g.op(t, "dgsend", &[s, to, len, canc])
                }
                0..=6 => {
                    let kd = g.r.below(4);
                    let len = if big { g.r.pick(&[70_000, 70_000, 70_000, 9000, 30]) } else if g.r.chance(70) { 50 } else { g.r.below(64) };
                    g.op(t, "dgrecv", &[s, kd, len, canc])
                }
                _ => g.pause(t),
            }
        }
    }
}
fn gen_conn(g: &mut G, acc: bool) {
    let nc = g.r.range(1, if acc { 4 } else { 5 });
    let na = if acc { g.r.range(1, 4) } else { g.r.below(3) };
    let nt = nc + na;
    g.threads(nt);
    let want = if acc { g.r.range(1, 15) } else { 15 };
    g.p.cfg.set("lsts", want);
    if g.r.chance(40) {
        let b = g.r.below(3);
        g.p.cfg.set("backlog", b);
    }
    if g.r.chance(40) {
        g.p.cfg.set("conn_sync", 1);
    }
    if g.r.chance(60) {
        let m = g.r.pick(&[20_000, MS, 10 * MS]);
        g.p.cfg.set("netmax", m);
        g.p.cfg.fault(f::NET_DELAY, 500_000);
    }
    if !acc {
        for (x, c) in [(f::CONN_REFUSED, 25), (f::CONN_TIMEOUT, 15), (f::CONN_RESET, 20), (f::SOCKET, 20), (f::CTL_ADD, 10)] {
            if g.r.chance(c) {
                g.p.cfg.fault(x, 200_000);
            }
        }
    } else {
        for (x, c) in [(f::ACCEPT_ERR, 40), (f::CTL_ADD, 10), (f::FIONBIO, 15), (f::ABORT_CLOSE, 40)] {
            if g.r.chance(c) {
                g.p.cfg.fault(x, 200_000);
            }
        }
    }
    let ct = g.r.pick(&[5 * MS, 50 * MS, 3 * SEC]);
    g.p.cfg.set("conn_timeout", ct);
    g.p.cfg.set("horizon", 3 * SEC / 2);
    let lst: Vec<u64> = (0..4).filter(|x| want >> x & 1 != 0).collect();
    for t in 0..nc {
        for _ in 0..g.r.range(1, 6) {
            let target = if acc || g.r.chance(60) { g.r.pick(&lst) } else { g.r.below(19) };
            let canc = if g.r.chance(25) { g.r.range(1, 3) } else { 0 };
            let hello = g.r.chance(60) as u64;
            g.op(t, "conn", &[target, canc, hello]);
            g.pause(t);
        }
    }
    for t in nc..nt {
        for _ in 0..g.r.range(1, 8) {
            let l = g.r.pick(&lst);
            let mode = g.r.below(4);
            let canc = if g.r.chance(25) { g.r.range(1, 3) } else { 0 };
            let serve = g.r.chance(60) as u64;
            g.op(t, "acc", &[l, mode, canc, serve]);
            g.pause(t);
        }
    }
}
