// Helpers shared by the demonstrations.
#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use async_io::{block_on, Async, Timer};
use futures_lite::{future, prelude::*};
use std::future::Future;
use std::io::{self, Read, Write};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::thread;
use std::time::{Duration, Instant};

pub fn fail(m: &str) -> ! {
    eprintln!("FAILED: {}", m);
    std::process::exit(1)
}
pub fn check(c: bool, m: &str) {
    if !c {
        fail(m)
    }
}
/// End the process as failed when it takes too long.
pub fn watchdog(secs: u64) {
    thread::spawn(move || {
        thread::sleep(Duration::from_secs(secs));
        fail("nothing happens any more")
    });
}
/// Wait until the condition holds.
pub fn until(secs: f64, mut c: impl FnMut() -> bool) -> bool {
    let t = Instant::now();
    while t.elapsed().as_secs_f64() < secs {
        if c() {
            return true;
        }
        thread::sleep(Duration::from_micros(200));
    }
    c()
}
pub struct Cnt {
    pub n: AtomicUsize,
    f: Option<Box<dyn Fn() + Send + Sync>>,
}
impl Wake for Cnt {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.n.fetch_add(1, SeqCst);
        if let Some(f) = &self.f {
            f()
        }
    }
}
impl Cnt {
    pub fn get(&self) -> usize {
        self.n.load(SeqCst)
    }
}
/// A waker that counts.
pub fn waker() -> (Arc<Cnt>, Waker) {
    let c = Arc::new(Cnt { n: AtomicUsize::new(0), f: None });
    (c.clone(), Waker::from(c))
}
/// A waker that counts and runs code.
pub fn hook(f: impl Fn() + Send + Sync + 'static) -> (Arc<Cnt>, Waker) {
    let c = Arc::new(Cnt { n: AtomicUsize::new(0), f: Some(Box::new(f)) });
    (c.clone(), Waker::from(c))
}
pub fn poll<F: Future + Unpin>(f: &mut F, w: &Waker) -> Poll<F::Output> {
    Pin::new(f).poll(&mut Context::from_waker(w))
}
pub fn next<S: Stream + Unpin>(s: &mut S, w: &Waker) -> Poll<Option<S::Item>> {
    Pin::new(s).poll_next(&mut Context::from_waker(w))
}
pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}
pub fn us(n: u64) -> Duration {
    Duration::from_micros(n)
}
/// Drive the future with our own executor: never through block_on.
pub fn run<F: Future>(f: F) -> F::Output {
    future::block_on(f)
}

// ---------------------------------------------------------------- the calls to the OS that the reactor makes
pub static WAITS: AtomicUsize = AtomicUsize::new(0);
/// How long to hold back the events of user handles, in milliseconds.
pub static HOLD: AtomicUsize = AtomicUsize::new(0);
pub static HELD: AtomicUsize = AtomicUsize::new(0);
/// How many epoll_wait calls with a zero timeout are interrupted.
pub static EINTR: AtomicUsize = AtomicUsize::new(0);
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: i32, evs: *mut libc::epoll_event, n: i32, timeout: i32) -> i32 {
    WAITS.fetch_add(1, SeqCst);
    if timeout == 0 && EINTR.fetch_update(SeqCst, SeqCst, |x| x.checked_sub(1)).is_ok() {
        *libc::__errno_location() = libc::EINTR;
        return -1;
    }
    let r = libc::syscall(libc::SYS_epoll_pwait, ep, evs, n, timeout, 0usize, 8usize) as i32;
    let h = HOLD.load(SeqCst);
    if h > 0 && (0..r.max(0) as usize).any(|i| std::ptr::addr_of!((*evs.add(i)).u64).read_unaligned() != u64::MAX) {
        HELD.fetch_add(1, SeqCst);
        thread::sleep(ms(h as u64));
    }
    r
}

/// Wake a future run by `block_on` from another thread at ever different moments: each wakeup must be seen soon.
pub fn stress() {
    let slot: Arc<Mutex<Option<Waker>>> = Arc::new(Mutex::new(None));
    let rounds = Arc::new(AtomicUsize::new(0));
    let done = Arc::new(AtomicBool::new(false));
    // Keep the helper thread away from the reactor, and this one on it.
    let (s, r, d) = (slot.clone(), rounds.clone(), done.clone());
    thread::spawn(move || {
        let mut x = 1u32;
        while !d.load(SeqCst) {
            let w = s.lock().unwrap().take();
            if let Some(w) = w {
                x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                for _ in 0..(x >> 16) % 2000 {
                    std::hint::spin_loop();
                }
                w.wake();
            }
        }
    });
    let r2 = rounds.clone();
    let d2 = done.clone();
    thread::spawn(move || {
        let mut last = 0;
        while !d2.load(SeqCst) {
            thread::sleep(ms(1500));
            let n = r2.load(SeqCst);
            if n == last && !d2.load(SeqCst) {
                fail("a wakeup was lost");
            }
            last = n;
        }
    });
    let t = Instant::now();
    while t.elapsed() < Duration::from_secs(25) {
        block_on(async {
            for _ in 0..1000 {
                let mut first = true;
                future::poll_fn(|cx| {
                    if first {
                        first = false;
                        *slot.lock().unwrap() = Some(cx.waker().clone());
                        Poll::Pending
                    } else {
                        Poll::Ready(())
                    }
                })
                .await;
                rounds.fetch_add(1, SeqCst);
            }
        });
    }
    done.store(true, SeqCst);
}
