//! The simulated kernel's descriptors.
use crate::kern::*;
use libc::*;
use std::collections::{BTreeMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const VFD0: i32 = 64;
pub const VFDN: usize = 4096;

const IN: u32 = EPOLLIN as u32;
const OUT: u32 = EPOLLOUT as u32;
const PRI: u32 = EPOLLPRI as u32;
const ERR: u32 = EPOLLERR as u32;
const HUP: u32 = EPOLLHUP as u32;
const RDHUP: u32 = EPOLLRDHUP as u32;
const ONESHOT: u32 = EPOLLONESHOT as u32;
const ET: u32 = EPOLLET as u32;
pub const RDBITS: u32 = IN | HUP | ERR | PRI;
pub const WRBITS: u32 = OUT | HUP | ERR;

#[derive(Clone, PartialEq, Debug, PartialOrd, Eq, Ord)]
pub enum Addr {
    None,
    In(SocketAddr),
    Un(Vec<u8>),
}
#[derive(Default)]
pub struct Dev {
    pub rd: i64,
    pub wr: i64,
    pub hup: bool,
    pub err: bool,
    pub pri: bool,
    pub rseq: u64,
    pub wseq: u64,
    pub nopoll: bool,
    /// Bumped whenever the direction stops being ready.
    pub ep: [u64; 2],
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum SSt {
    New,
    Bound,
    Listen,
    Connecting,
    Conn,
    Dead,
}
pub struct Sock {
    pub fam: i32,
    pub stream: bool,
    pub pipe: bool,
    pub st: SSt,
    pub local: Addr,
    pub paddr: Addr,
    pub peer: Option<usize>,
    pub rx: VecDeque<u8>,
    pub rx_cap: usize,
    pub inflight: usize,
    pub last_arrival: u64,
    pub fin_in: bool,
    pub fin_sent: bool,
    pub rd_shut: bool,
    pub peer_gone: bool,
    pub was_reset: bool,
    pub err: i32,
    pub backlog: usize,
    pub queue: VecDeque<usize>,
    // datagrams: data, source, sender to uncharge
    pub dq: VecDeque<(Vec<u8>, Addr, Option<usize>)>,
    pub dcap: usize,
    pub tx_charge: usize,
    pub tx_cap: usize,
    pub sent_total: u64,
    pub conn_gen: u64,
}
pub struct Item {
    pub fd: i32,
    pub file: usize,
    pub events: u32,
    pub data: u64,
    pub disabled: bool,
    pub seen: u64,
    pub del_tried: bool,
}
pub enum Kind {
    Closed,
    Epoll(Vec<Item>),
    EventFd(u64, bool),
    Timer { ticks: u64, gen: u64, interval: u64 },
    Dev(Dev),
    Sock(Box<Sock>),
}
pub struct File {
    pub refs: u32,
    pub nonblock: bool,
    pub kind: Kind,
    pub seq: u64,
    /// Readiness reports handed to epoll_wait callers, per direction as `polling` maps them.
    pub delivered: [u64; 2],
    pub watchers: Vec<usize>,
    pub reads: u64,
    pub writes: u64,
    pub closes: u64,
    pub adds: u64,
    pub dels: u64,
    pub mods: u64,
    pub mod_fail: u64,
    pub add_fail: u64,
    pub nb_fail: u64,
}
/// References into these live across scheduling points, so that the elements must not move.
#[derive(Default)]
pub struct Files(Vec<Box<File>>);
impl std::ops::Index<usize> for Files {
    type Output = File;
    fn index(&self, i: usize) -> &File {
        &self.0[i]
    }
}
impl std::ops::IndexMut<usize> for Files {
    fn index_mut(&mut self, i: usize) -> &mut File {
        &mut self.0[i]
    }
}
pub struct Vfs {
    pub fds: Vec<Option<usize>>,
    pub files: Files,
    pub bound: BTreeMap<(bool, Addr), usize>,
    pub next_port: u16,
    pub rx_cap: usize,
    pub out_thresh: usize,
    pub dcap: usize,
    pub tx_cap: usize,
    pub net_max: u64,
    pub open_user: i64,
    pub conn_sync: bool,
    pub conn_timeout: u64,
    pub fd_limit: usize,
    pub epwait_calls: u64,
    pub epwait_blocks: u64,
    pub epolls: u64,
    /// The event queues that user descriptors were registered in or that a thread waited on.
    pub ep_used: std::collections::BTreeSet<usize>,
}

impl Vfs {
    pub fn new(cfg: &Cfg) -> Vfs {
        let rx_cap = cfg.get("rxcap", 64) as usize;
        Vfs {
            fds: vec![],
            files: Files::default(),
            bound: BTreeMap::new(),
            next_port: 40000,
            rx_cap,
            out_thresh: (rx_cap * cfg.get("outpct", 1) as usize / 100).max(1),
            dcap: cfg.get("dcap", 4) as usize,
            tx_cap: cfg.get("txcap", 64) as usize,
            net_max: cfg.get("netmax", 3_000_000),
            open_user: 0,
            conn_sync: cfg.get("conn_sync", 0) != 0,
            conn_timeout: cfg.get("conn_timeout", 3_000_000_000),
            fd_limit: cfg.get("fd_limit", 900) as usize,
            epwait_calls: 0,
            epwait_blocks: 0,
            epolls: 0,
            ep_used: Default::default(),
        }
    }
    pub fn file_of(&self, fd: i32) -> Option<usize> {
        if fd < VFD0 {
            return None;
        }
        self.fds.get((fd - VFD0) as usize).copied().flatten()
    }
    pub fn is_epoll(&self, id: usize) -> bool {
        matches!(self.files[id].kind, Kind::Epoll(_))
    }
    pub fn is_user(&self, id: usize) -> bool {
        match &self.files[id].kind {
            Kind::Dev(_) => true,
            Kind::Sock(s) => !s.pipe,
            _ => false,
        }
    }
    pub fn alloc(&mut self, kind: Kind, nonblock: bool) -> usize {
        self.files.0.push(Box::new(File {
            refs: 0,
            nonblock,
            kind,
            seq: 0,
            delivered: [0; 2],
            watchers: vec![],
            reads: 0,
            writes: 0,
            closes: 0,
            adds: 0,
            dels: 0,
            mods: 0,
            mod_fail: 0,
            add_fail: 0,
            nb_fail: 0,
        }));
        self.files.0.len() - 1
    }
    pub fn open_fds(&self) -> usize {
        self.fds.iter().filter(|f| f.is_some()).count()
    }
    /// Open descriptors of user-visible kinds.
    pub fn open_epolls(&self) -> usize {
        self.fds.iter().flatten().filter(|f| matches!(self.files[**f].kind, Kind::Epoll(_))).count()
    }
    pub fn open_user_fds(&self) -> Vec<i32> {
        (0..self.fds.len()).filter(|i| self.fds[*i].is_some_and(|f| self.is_user(f))).map(|i| i as i32 + VFD0).collect()
    }
    pub fn install(&mut self, file: usize) -> Result<i32, i32> {
        if self.open_fds() >= self.fd_limit {
            k().count(f::SCARCE_FD);
            return Err(EMFILE);
        }
        let i = match self.fds.iter().position(|x| x.is_none()) {
            Some(i) => i,
            None => {
                self.fds.push(None);
                self.fds.len() - 1
            }
        };
        if i >= VFDN {
            return Err(EMFILE);
        }
        self.fds[i] = Some(file);
        self.files[file].refs += 1;
        Ok(i as i32 + VFD0)
    }
    pub fn sock(&mut self, id: usize) -> &mut Sock {
        match &mut self.files[id].kind {
            Kind::Sock(s) => s,
            _ => panic!("not a socket"),
        }
    }
    pub fn is_sock(&self, id: usize) -> bool {
        matches!(self.files[id].kind, Kind::Sock(_))
    }
    pub fn new_sock(&mut self, fam: i32, stream: bool) -> Sock {
        Sock {
            fam,
            stream,
            pipe: false,
            st: SSt::New,
            local: Addr::None,
            paddr: Addr::None,
            peer: None,
            rx: VecDeque::new(),
            rx_cap: self.rx_cap,
            inflight: 0,
            last_arrival: 0,
            fin_in: false,
            fin_sent: false,
            rd_shut: false,
            peer_gone: false,
            was_reset: false,
            err: 0,
            backlog: 0,
            queue: VecDeque::new(),
            dq: VecDeque::new(),
            dcap: self.dcap,
            tx_charge: 0,
            tx_cap: self.tx_cap,
            sent_total: 0,
            conn_gen: 0,
        }
    }

    // ------------------------------------------------------------ readiness
    fn space(&self, id: usize) -> usize {
        if let Kind::Sock(s) = &self.files[id].kind {
            if let Some(p) = s.peer {
                if let Kind::Sock(ps) = &self.files[p].kind {
                    return ps.rx_cap.saturating_sub(ps.rx.len() + ps.inflight);
                }
            }
        }
        0
    }
    pub fn mask(&self, id: usize) -> u32 {
        match &self.files[id].kind {
            Kind::Closed => 0,
            Kind::Epoll(_) => {
                if self.ready_items(id).is_empty() {
                    0
                } else {
                    IN
                }
            }
            Kind::EventFd(c, _) => OUT | if *c > 0 { IN } else { 0 },
            Kind::Timer { ticks, .. } => {
                if *ticks > 0 {
                    IN
                } else {
                    0
                }
            }
            Kind::Dev(d) => {
                let mut m = 0;
                if d.rd > 0 || d.hup {
                    m |= IN;
                }
                if d.wr > 0 {
                    m |= OUT;
                }
                if d.hup {
                    m |= HUP;
                }
                if d.err {
                    m |= ERR;
                }
                if d.pri {
                    m |= PRI;
                }
                m
            }
            Kind::Sock(s) if s.stream => {
                let mut m = 0;
                match s.st {
                    SSt::Listen => {
                        if !s.queue.is_empty() {
                            m |= IN;
                        }
                    }
                    SSt::New | SSt::Bound => m |= OUT | HUP,
                    SSt::Connecting => {}
                    SSt::Dead => {
                        m |= IN | OUT | HUP | RDHUP;
                        if s.err != 0 {
                            m |= ERR;
                        }
                    }
                    SSt::Conn => {
                        if !s.rx.is_empty() || s.fin_in || s.rd_shut {
                            m |= IN;
                        }
                        if s.fin_in || s.rd_shut {
                            m |= RDHUP;
                        }
                        if (s.fin_in && s.fin_sent) || (s.peer_gone && s.fam == AF_UNIX) || (s.fin_in && s.pipe) {
                            m |= HUP;
                        }
                        if s.err != 0 {
                            m |= ERR | IN;
                        }
                        if s.fin_sent || s.err != 0 || s.peer_gone || self.space(id) >= self.out_thresh {
                            m |= OUT;
                        }
                    }
                }
                m
            }
            Kind::Sock(s) => {
                let mut m = 0;
                if !s.dq.is_empty() || s.err != 0 || s.rd_shut {
                    m |= IN;
                }
                if s.err != 0 {
                    m |= ERR;
                }
                if s.tx_charge < s.tx_cap {
                    m |= OUT;
                }
                m
            }
        }
    }
    fn item_ready(&self, it: &Item) -> u32 {
        if it.disabled {
            return 0;
        }
        let m = self.mask(it.file) & (it.events | ERR | HUP);
        if it.events & ET != 0 && it.seen == self.files[it.file].seq + 1 {
            return 0;
        }
        m
    }
    pub fn ready_items(&self, ep: usize) -> Vec<(usize, u32)> {
        match &self.files[ep].kind {
            Kind::Epoll(items) => items
                .iter()
                .enumerate()
                .filter_map(|(i, it)| {
                    let m = self.item_ready(it);
                    if m != 0 {
                        Some((i, m))
                    } else {
                        None
                    }
                })
                .collect(),
            _ => vec![],
        }
    }
}

// ---------------------------------------------------------------- free functions on the kernel
/// The state of a file changed: wake whoever waits for it.
pub fn changed(id: usize) {
    k().vfs.files[id].seq += 1;
    k().wake_file_waiters(id);
    let ws = k().vfs.files[id].watchers.clone();
    for ep in ws {
        epoll_kick(ep);
    }
    if let Some(f) = k().on_changed {
        f(id);
    }
}
pub fn epoll_kick(ep: usize) {
    if k().vfs.ready_items(ep).is_empty() {
        return;
    }
    for i in 0..k().ths.len() {
        if k().ths[i].st == St::Blocked && k().ths[i].wait == Wait::Epoll(ep) {
            k().make_runnable(i as u32, false);
        }
    }
    // Nested epoll / poll(2) on the epoll descriptor.
    k().wake_file_waiters(ep);
}

pub fn h01(class: &str, msg: String) {
    k().fail("H01", class, &msg);
}

pub fn epoll_ctl(epfd: i32, op: i32, fd: i32, events: u32, data: u64) -> isize {
    let Some(ep) = k().vfs.file_of(epfd) else { return -(EBADF as isize) };
    if !matches!(k().vfs.files[ep].kind, Kind::Epoll(_)) {
        return -(EINVAL as isize);
    }
    let file = k().vfs.file_of(fd);
    k().log(|| format!("epoll_ctl op={} fd={} events={:x} key={}", op, fd, events, data as i64));
    let Some(file) = file else {
        h01("CTL_ON_CLOSED", format!("epoll_ctl op {} on closed descriptor {}", op, fd));
        return -(EBADF as isize);
    };
    let user = k().vfs.is_user(file);
    let items: *mut Vec<Item> = match &mut k().vfs.files[ep].kind {
        Kind::Epoll(v) => v,
        _ => unreachable!(),
    };
    let items = unsafe { &mut *items };
    let pos = items.iter().position(|i| i.fd == fd && i.file == file);
    match op {
        EPOLL_CTL_ADD => {
            if let Kind::Dev(d) = &k().vfs.files[file].kind {
                if d.nopoll {
                    return -(EPERM as isize);
                }
            }
            if user {
                k().vfs.ep_used.insert(ep);
                let v = k().fault(f::CTL_ADD, 2);
                if v != 0 {
                    k().vfs.files[file].add_fail += 1;
                    return -(if v == 1 { ENOMEM } else { ENOSPC } as isize);
                }
            }
            if pos.is_some() {
                return -(EEXIST as isize);
            }
            k().vfs.files[file].adds += 1;
            items.push(Item { fd, file, events, data, disabled: false, seen: 0, del_tried: false });
            k().vfs.files[file].watchers.push(ep);
            epoll_kick(ep);
            0
        }
        EPOLL_CTL_MOD => {
            let Some(i) = pos else {
                // Harmless on a descriptor of one's own, as by an event that races with its deregistration.
                if k().vfs.files[file].adds + k().vfs.files[file].add_fail == 0 && !matches!(&k().vfs.files[file].kind, Kind::Dev(d) if d.nopoll) {
                    h01("MOD_UNREGISTERED", format!("epoll_ctl MOD on descriptor {} that was never registered", fd));
                }
                return -(ENOENT as isize);
            };
            k().vfs.files[file].mods += 1;
            if user && k().fault(f::CTL_MOD, 1) != 0 {
                k().vfs.files[file].mod_fail += 1;
                crate::kern::cur().modf += 1;
                return -(ENOMEM as isize);
            }
            items[i].events = events;
            items[i].data = data;
            items[i].disabled = false;
            items[i].seen = 0;
            epoll_kick(ep);
            0
        }
        EPOLL_CTL_DEL => {
            let Some(i) = pos else {
                // Harmless on a descriptor of one's own, as by an event that races with its deregistration.
                if k().vfs.files[file].adds + k().vfs.files[file].add_fail == 0 && !matches!(&k().vfs.files[file].kind, Kind::Dev(d) if d.nopoll) {
                    h01("DEL_UNREGISTERED", format!("epoll_ctl DEL on descriptor {} that was never registered", fd));
                }
                return -(ENOENT as isize);
            };
            k().vfs.files[file].dels += 1;
            if user && k().fault(f::CTL_DEL, 1) != 0 {
                items[i].del_tried = true;
                return -(ENOMEM as isize);
            }
            items.remove(i);
            let w = &mut k().vfs.files[file].watchers;
            let p = w.iter().position(|x| *x == ep).unwrap();
            w.remove(p);
            0
        }
        _ => -(EINVAL as isize),
    }
}

/// timeout: None = infinite, in ns.
pub unsafe fn epoll_wait(epfd: i32, evs: *mut epoll_event, max: i32, timeout: Option<u64>) -> isize {
    let Some(ep) = k().vfs.file_of(epfd) else { return -(EBADF as isize) };
    k().vfs.ep_used.insert(ep);
    if max <= 0 {
        return -(EINVAL as isize);
    }
    k().vfs.epwait_calls += 1;
    if let Some(h) = k().epwait_hook {
        h(cur().hot.id as usize);
    }
    let deadline = timeout.map(|t| now().saturating_add(t));
    if k().fault(f::EPOLL_EINTR, 1) != 0 {
        return -(EINTR as isize);
    }
    if k().fault(f::EPOLL_ERR, 1) != 0 {
        return -(ENOMEM as isize);
    }
    let mut spur: Option<usize> = None;
    let v = k().fault(f::EPOLL_SPUR, 64);
    if v != 0 {
        if let Kind::Epoll(items) = &k().vfs.files[ep].kind {
            let cand: Vec<usize> = (0..items.len())
                .filter(|i| {
                    let it = &items[*i];
                    let connecting = match &k().vfs.files[it.file].kind {
                        Kind::Sock(s) => s.st == SSt::Connecting,
                        _ => false,
                    };
                    !it.disabled && it.events & (IN | OUT) != 0 && k().vfs.is_user(it.file) && !connecting
                })
                .collect();
            if !cand.is_empty() {
                spur = Some(cand[(v as usize - 1) % cand.len()]);
            }
        }
    }
    let mut blocked = false;
    loop {
        let mut ready = k().vfs.ready_items(ep);
        if let Some(i) = spur.take() {
            if !ready.iter().any(|r| r.0 == i) {
                if let Kind::Epoll(items) = &k().vfs.files[ep].kind {
                    if i < items.len() {
                        ready.push((i, items[i].events & (IN | OUT)));
                    }
                }
            }
        }
        if !ready.is_empty() {
            if ready.len() > 1 {
                let v = k().fault(f::EPOLL_ORDER, 1 << 30);
                if v != 0 {
                    let mut r = crate::rng::Rng::new(v, 5);
                    for i in (1..ready.len()).rev() {
                        ready.swap(i, r.below(i as u64 + 1) as usize);
                    }
                }
                let v = k().fault(f::EPOLL_PARTIAL, 8);
                if v != 0 {
                    ready.truncate((v as usize).min(ready.len() - 1).max(1));
                }
            }
            ready.truncate(max as usize);
            for (n, (i, m)) in ready.iter().enumerate() {
                let (file, data) = match &mut k().vfs.files[ep].kind {
                    Kind::Epoll(items) => {
                        let it = &mut items[*i];
                        if it.events & ONESHOT != 0 {
                            it.disabled = true;
                        }
                        (it.file, it.data)
                    }
                    _ => unreachable!(),
                };
                let seq = k().vfs.files[file].seq;
                if let Kind::Epoll(items) = &mut k().vfs.files[ep].kind {
                    items[*i].seen = seq + 1;
                }
                let fl = &mut k().vfs.files[file];
                if m & RDBITS != 0 {
                    fl.delivered[0] += 1;
                }
                if m & WRBITS != 0 {
                    fl.delivered[1] += 1;
                }
                k().log(|| format!("epoll_wait delivers key={} mask={:x} file={}", data as i64, m, file));
                let e = evs.add(n);
                std::ptr::addr_of_mut!((*e).events).write_unaligned(*m);
                std::ptr::addr_of_mut!((*e).u64).write_unaligned(data);
            }
            k().epoll_returns += 1;
            return ready.len() as isize;
        }
        if timeout == Some(0) {
            k().epoll_returns += 1;
            return 0;
        }
        if deadline.is_some_and(|d| now() >= d) {
            return 0;
        }
        if blocked && k().fault(f::EPOLL_EINTR, 1) != 0 {
            return -(EINTR as isize);
        }
        blocked = true;
        k().vfs.epwait_blocks += 1;
        k().log(|| format!("epoll_wait blocks until {:?}", deadline));
        let th = cur();
        // A signal that arrives while the thread is blocked.
        let v = k().fault(f::EPOLL_EINTR, 6);
        let sig = match v {
            0 => None,
            _ => Some(now().saturating_add([10_000, 1_000_000, 20_000_000, 300_000_000, 3_000_000_000, 100_000_000_000][v as usize - 1])),
        };
        let sig = sig.filter(|s| deadline.map_or(true, |d| *s < d));
        if k().block(th, Wait::Epoll(ep), sig.or(deadline), true) && k().vfs.ready_items(ep).is_empty() {
            return if sig.is_some() { -(EINTR as isize) } else { 0 };
        }
    }
}

// ---------------------------------------------------------------- open / close
pub fn close(fd: i32) -> isize {
    let Some(file) = k().vfs.file_of(fd) else {
        k().fail("H01,H02,A04", "DOUBLE_CLOSE", &format!("close of descriptor {} which is not open", fd));
    };
    k().log(|| format!("close fd={} file={}", fd, file));
    // A registration made under this descriptor must be gone.
    for ep in k().vfs.files[file].watchers.clone() {
        if let Kind::Epoll(items) = &k().vfs.files[ep].kind {
            if items.iter().any(|i| i.fd == fd && i.file == file && !i.del_tried) && k().vfs.is_user(file) {
                h01("CLOSE_REGISTERED", format!("descriptor {} closed while still registered in the reactor", fd));
            }
        }
    }
    k().vfs.fds[(fd - VFD0) as usize] = None;
    k().vfs.files[file].refs -= 1;
    k().vfs.files[file].closes += 1;
    if k().vfs.files[file].refs == 0 {
        destroy(file);
    }
    0
}
pub fn destroy(file: usize) {
    for ep in std::mem::take(&mut k().vfs.files[file].watchers) {
        if let Kind::Epoll(items) = &mut k().vfs.files[ep].kind {
            items.retain(|i| i.file != file);
        }
    }
    let kind = std::mem::replace(&mut k().vfs.files[file].kind, Kind::Closed);
    if let Kind::Sock(s) = kind {
        k().vfs.bound.retain(|_, v| *v != file);
        for q in s.queue.iter() {
            k().vfs.files[*q].refs -= 1;
            if k().vfs.files[*q].refs == 0 {
                destroy(*q);
            }
        }
        if s.stream {
            if let Some(p) = s.peer {
                let mut unread = !s.rx.is_empty() || s.inflight > 0;
                if !unread && !s.pipe && s.fam != AF_UNIX && k().srv_log.contains_key(&p) && k().fault(f::ABORT_CLOSE, 1) != 0 {
                    // As with a zero linger time.
                    unread = true;
                }
                if unread && !s.pipe {
                    send_rst(p, ECONNRESET, s.fam);
                } else {
                    send_fin(file, p, true, s.fam);
                }
            }
        } else {
            for (d, _, from) in s.dq {
                if let Some(fr) = from {
                    uncharge(fr, d.len());
                }
            }
        }
    }
    changed(file);
}
fn net_delay(fam: i32) -> u64 {
    if fam == AF_UNIX {
        0
    } else {
        let m = k().vfs.net_max;
        k().fault_range(f::NET_DELAY, m)
    }
}
/// FIN from `from` towards `p`, in order with the data.
fn send_fin(_from: usize, p: usize, gone: bool, fam: i32) {
    let d = net_delay(fam);
    if !k().vfs.is_sock(p) {
        return;
    }
    let s = k().vfs.sock(p);
    let t = (now() + d).max(s.last_arrival);
    s.last_arrival = t;
    let act = move || {
        if k().vfs.is_sock(p) {
            let s = k().vfs.sock(p);
            s.fin_in = true;
            if gone {
                s.peer_gone = true;
            }
            changed(p);
        }
    };
    if t <= now() {
        act();
    } else {
        k().at(t, act);
    }
}
fn send_rst(p: usize, err: i32, fam: i32) {
    let d = net_delay(fam);
    let act = move || {
        if k().vfs.is_sock(p) {
            let s = k().vfs.sock(p);
            if s.st == SSt::Conn {
                s.err = err;
                s.fin_in = true;
                s.fin_sent = true;
                s.peer_gone = true;
                s.was_reset = true;
                changed(p);
            }
        }
    };
    if d == 0 {
        act();
    } else {
        k().at(now() + d, act);
    }
}
/// Reset an established connection from outside (network fault): both ends see ECONNRESET.
pub fn net_reset(id: usize) {
    if !k().vfs.is_sock(id) || k().vfs.sock(id).st != SSt::Conn {
        return;
    }
    let p = k().vfs.sock(id).peer;
    k().count(f::CONN_RESET);
    send_rst(id, ECONNRESET, AF_UNIX);
    if let Some(p) = p {
        send_rst(p, ECONNRESET, AF_UNIX);
    }
}

// ---------------------------------------------------------------- timerfd, eventfd
pub fn timer_set(id: usize, abs: bool, value: u64, interval: u64) {
    let gen = match &mut k().vfs.files[id].kind {
        Kind::Timer { ticks, gen, interval: iv } => {
            *ticks = 0;
            *gen += 1;
            *iv = interval;
            *gen
        }
        _ => return,
    };
    if value == 0 {
        return;
    }
    let mut t = if abs { value } else { now().saturating_add(value) };
    t = t.saturating_add(k().fault_range(f::TIMER_LATE, 2_000_000));
    if t == u64::MAX {
        return;
    }
    k().at(t, move || timer_fire(id, gen));
}
fn timer_fire(id: usize, gen0: u64) {
    let mut iv = 0;
    if let Kind::Timer { ticks, gen, interval } = &mut k().vfs.files[id].kind {
        if *gen != gen0 {
            return;
        }
        *ticks += 1;
        iv = *interval;
    }
    changed(id);
    if iv > 0 {
        k().at(now() + iv, move || timer_fire(id, gen0));
    }
}

// ---------------------------------------------------------------- reading and writing
pub fn nonblocking_read(id: usize, buf: &mut [u8], peek: bool) -> Result<usize, i32> {
    k().vfs.files[id].reads += 1;
    match &mut k().vfs.files[id].kind {
        Kind::EventFd(c, sema) => {
            if *c == 0 {
                return Err(EAGAIN);
            }
            let v = if *sema { 1 } else { *c };
            *c -= v;
            buf[..8].copy_from_slice(&v.to_ne_bytes());
            changed(id);
            Ok(8)
        }
        Kind::Timer { ticks, .. } => {
            if *ticks == 0 {
                return Err(EAGAIN);
            }
            buf[..8].copy_from_slice(&ticks.to_ne_bytes());
            *ticks = 0;
            Ok(8)
        }
        Kind::Dev(d) => {
            if d.rd > 0 {
                if k().fault(f::EAGAIN, 1) != 0 {
                    return Err(EAGAIN);
                }
                if k().fault(f::IO_EINTR, 1) != 0 {
                    return Err(EINTR);
                }
                d.rd -= 1;
                if d.rd == 0 && !d.hup {
                    d.ep[0] += 1;
                }
                d.rseq += 1;
                if !buf.is_empty() {
                    buf[0] = d.rseq as u8;
                    return Ok(1);
                }
                return Ok(0);
            }
            if d.err {
                return Err(EIO);
            }
            if d.hup {
                return Ok(0);
            }
            Err(EAGAIN)
        }
        Kind::Sock(s) if s.stream => {
            if s.st == SSt::Listen || ((s.st == SSt::New || s.st == SSt::Bound) && !s.pipe) {
                return Err(if s.fam == AF_UNIX { EINVAL } else { ENOTCONN });
            }
            if s.st == SSt::Connecting {
                return Err(EAGAIN);
            }
            if buf.is_empty() {
                return Ok(0);
            }
            if !s.rx.is_empty() {
                if !s.pipe && k().fault(f::EAGAIN, 1) != 0 {
                    return Err(EAGAIN);
                }
                if !s.pipe && k().fault(f::IO_EINTR, 1) != 0 {
                    return Err(EINTR);
                }
                let mut n = buf.len().min(s.rx.len());
                if n > 1 && !s.pipe {
                    let v = k().fault(f::SHORT_R, n as u64 - 1);
                    if v != 0 {
                        n = (v as usize).min(n);
                    }
                }
                for (i, b) in buf[..n].iter_mut().enumerate() {
                    *b = s.rx[i];
                }
                if !peek {
                    s.rx.drain(..n);
                    if let Some(p) = s.peer {
                        changed(p);
                    }
                }
                return Ok(n);
            }
            if s.err != 0 {
                let e = s.err;
                s.err = 0;
                return Err(e);
            }
            if s.fin_in || s.rd_shut || s.st == SSt::Dead {
                return Ok(0);
            }
            Err(EAGAIN)
        }
        _ => Err(EINVAL),
    }
}
pub fn nonblocking_write(id: usize, data: &[u8]) -> Result<usize, i32> {
    k().vfs.files[id].writes += 1;
    match &mut k().vfs.files[id].kind {
        Kind::EventFd(c, _) => {
            let v = u64::from_ne_bytes(data[..8].try_into().unwrap());
            *c = c.saturating_add(v);
            changed(id);
            Ok(8)
        }
        Kind::Dev(d) => {
            if d.err {
                return Err(EIO);
            }
            if d.wr > 0 {
                if k().fault(f::EAGAIN, 1) != 0 {
                    return Err(EAGAIN);
                }
                if k().fault(f::IO_EINTR, 1) != 0 {
                    return Err(EINTR);
                }
                d.wr -= 1;
                if d.wr == 0 && !d.hup {
                    d.ep[1] += 1;
                }
                d.wseq += 1;
                return Ok(data.len().min(1));
            }
            if d.hup {
                return Err(EPIPE);
            }
            Err(EAGAIN)
        }
        Kind::Sock(s) if s.stream => {
            match s.st {
                SSt::Connecting => return Err(EAGAIN),
                SSt::Conn => {}
                _ => return Err(if s.fam == AF_UNIX { ENOTCONN } else { EPIPE }),
            }
            if s.err != 0 {
                let e = s.err;
                s.err = 0;
                return Err(e);
            }
            if s.fin_sent {
                return Err(EPIPE);
            }
            let fam = s.fam;
            let pipe = s.pipe;
            let Some(p) = s.peer else { return Err(EPIPE) };
            if data.is_empty() && fam != AF_UNIX {
                return Ok(0);
            }
            if !k().vfs.is_sock(p) {
                if fam == AF_UNIX {
                    return Err(EPIPE);
                }
                if s.peer_gone || true {
                    // The data goes out; the other side answers with a reset.
                    let mine = id;
                    send_rst(mine, EPIPE, fam);
                    return Ok(data.len());
                }
            }
            if data.is_empty() {
                return Ok(0);
            }
            let space = k().vfs.space(id);
            if space == 0 {
                return Err(EAGAIN);
            }
            if !pipe {
                if k().fault(f::EAGAIN, 1) != 0 {
                    return Err(EAGAIN);
                }
                if k().fault(f::IO_EINTR, 1) != 0 {
                    return Err(EINTR);
                }
            }
            let mut n = data.len().min(space);
            if n > 1 && !pipe {
                let v = k().fault(f::SHORT_W, n as u64 - 1);
                if v != 0 {
                    n = (v as usize).min(n);
                }
            }
            let bytes = data[..n].to_vec();
            k().vfs.sock(id).sent_total += n as u64;
            let d = net_delay(fam);
            let ps = k().vfs.sock(p);
            let t = (now() + d).max(ps.last_arrival);
            ps.last_arrival = t;
            if t <= now() {
                ps.rx.extend(bytes);
                changed(p);
            } else {
                ps.inflight += n;
                k().at(
                    t,
                    move || {
                        if k().vfs.is_sock(p) {
                            let ps = k().vfs.sock(p);
                            ps.inflight -= bytes.len();
                            ps.rx.extend(bytes);
                            changed(p);
                        }
                    },
                );
            }
            Ok(n)
        }
        Kind::Sock(_) => {
            k().vfs.files[id].writes -= 1;
            dgram_send(id, data, None)
        }
        _ => Err(EINVAL),
    }
}

// ---------------------------------------------------------------- datagrams
fn uncharge(id: usize, n: usize) {
    if k().vfs.is_sock(id) {
        let s = k().vfs.sock(id);
        s.tx_charge = s.tx_charge.saturating_sub(n + 1);
        changed(id);
    }
}
pub fn dgram_send(id: usize, data: &[u8], to: Option<Addr>) -> Result<usize, i32> {
    k().vfs.files[id].writes += 1;
    let s = k().vfs.sock(id);
    let fam = s.fam;
    if s.err != 0 {
        let e = s.err;
        s.err = 0;
        return Err(e);
    }
    let connected = s.paddr.clone();
    let pair = s.peer;
    let dst = match to {
        Some(a) => match a {
            Addr::None => return Err(EINVAL),
            a => a,
        },
        None => {
            if pair.is_none() && connected == Addr::None {
                return Err(if fam == AF_UNIX { ENOTCONN } else { EDESTADDRREQ });
            }
            connected
        }
    };
    if data.len() > if fam == AF_UNIX { 212_960 } else { 65_507 } {
        return Err(EMSGSIZE);
    }
    if s.tx_charge >= s.tx_cap {
        return Err(EAGAIN);
    }
    if k().fault(f::EAGAIN, 1) != 0 {
        return Err(EAGAIN);
    }
    if k().fault(f::IO_EINTR, 1) != 0 {
        return Err(EINTR);
    }
    let src = {
        if fam != AF_UNIX && s.local == Addr::None {
            let a = k().vfs.ephemeral(fam);
            k().vfs.bound.insert((false, a.clone()), id);
            k().vfs.sock(id).local = a;
        }
        k().vfs.sock(id).local.clone()
    };
    let target = if dst == Addr::None { pair } else { k().vfs.bound.get(&(false, dst.clone())).copied() };
    if fam == AF_UNIX {
        let Some(t) = target else { return Err(ECONNREFUSED) };
        if !k().vfs.is_sock(t) {
            return Err(ECONNREFUSED);
        }
        k().vfs.sock(id).tx_charge += data.len() + 1;
        k().vfs.sock(t).dq.push_back((data.to_vec(), src, Some(id)));
        changed(t);
        return Ok(data.len());
    }
    // UDP: charged to the sender until it has left, may be lost, duplicated, delayed (hence reordered).
    k().vfs.sock(id).tx_charge += data.len() + 1;
    let drop_it = k().fault(f::DG_DROP, 1) != 0;
    let dup = k().fault(f::DG_DUP, 1) != 0;
    let base = {
        let m = k().vfs.net_max;
        let d = k().fault_range(f::NET_DELAY, m);
        let ro = k().fault(f::DG_REORD, 1) != 0;
        let s = k().vfs.sock(id);
        let t = now() + d;
        if ro {
            t
        } else {
            s.last_arrival = s.last_arrival.max(t);
            s.last_arrival
        }
    };
    let n = data.len();
    let bytes = data.to_vec();
    let deliver = move || {
        uncharge(id, n);
        if drop_it {
            return;
        }
        match k().vfs.bound.get(&(false, dst.clone())).copied() {
            Some(t) if k().vfs.is_sock(t) => {
                // A connected socket only takes messages from its peer.
                let ts = k().vfs.sock(t);
                if ts.paddr != Addr::None && ts.paddr != src {
                    return;
                }
                for _ in 0..(1 + dup as usize) {
                    let ts = k().vfs.sock(t);
                    if ts.dq.len() < ts.dcap {
                        ts.dq.push_back((bytes.clone(), src.clone(), None));
                        let l = bytes.len();
                        k().log(|| format!("datagram of {} bytes queued on file {}", l, t));
                        changed(t);
                    } else {
                        k().count(f::DG_DROP);
                    }
                }
            }
            _ => {
                if k().vfs.is_sock(id) && k().vfs.sock(id).paddr != Addr::None {
                    k().vfs.sock(id).err = ECONNREFUSED;
                    changed(id);
                }
            }
        }
    };
    if base <= now() {
        deliver();
    } else {
        k().at(base, deliver);
    }
    Ok(n)
}
pub fn dgram_recv(id: usize, buf: &mut [u8], peek: bool) -> Result<(usize, Addr, usize), i32> {
    k().vfs.files[id].reads += 1;
    let s = k().vfs.sock(id);
    if s.err != 0 {
        let e = s.err;
        s.err = 0;
        return Err(e);
    }
    if s.dq.is_empty() {
        if s.rd_shut {
            return Ok((0, Addr::None, 0));
        }
        return Err(EAGAIN);
    }
    if k().fault(f::EAGAIN, 1) != 0 {
        return Err(EAGAIN);
    }
    if k().fault(f::IO_EINTR, 1) != 0 {
        return Err(EINTR);
    }
    let s = k().vfs.sock(id);
    let (d, a, from) = if peek { s.dq[0].clone() } else { s.dq.pop_front().unwrap() };
    let n = d.len().min(buf.len());
    buf[..n].copy_from_slice(&d[..n]);
    if !peek {
        if let Some(fr) = from {
            uncharge(fr, d.len());
        }
    }
    Ok((n, a, d.len()))
}

// ---------------------------------------------------------------- naming
impl Vfs {
    pub fn ephemeral(&mut self, fam: i32) -> Addr {
        self.next_port += 1;
        let ip = if fam == AF_INET6 { IpAddr::V6(Ipv6Addr::LOCALHOST) } else { IpAddr::V4(Ipv4Addr::LOCALHOST) };
        Addr::In(SocketAddr::new(ip, self.next_port))
    }
}
pub unsafe fn parse_addr(p: *const sockaddr, len: u32) -> Addr {
    if p.is_null() || len < 2 {
        return Addr::None;
    }
    match (*p).sa_family as i32 {
        AF_INET => {
            let a = *(p as *const sockaddr_in);
            Addr::In(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr))), u16::from_be(a.sin_port)))
        }
        AF_INET6 => {
            let a = *(p as *const sockaddr_in6);
            Addr::In(SocketAddr::V6(std::net::SocketAddrV6::new(Ipv6Addr::from(a.sin6_addr.s6_addr), u16::from_be(a.sin6_port), a.sin6_flowinfo, a.sin6_scope_id)))
        }
        AF_UNIX => {
            let path = std::slice::from_raw_parts((p as *const u8).add(2), (len as usize - 2).min(108));
            if path.is_empty() {
                return Addr::None;
            }
            if path[0] == 0 {
                Addr::Un(path.to_vec())
            } else {
                let n = path.iter().position(|b| *b == 0).unwrap_or(path.len());
                Addr::Un(path[..n].to_vec())
            }
        }
        _ => Addr::None,
    }
}
pub unsafe fn put_addr(a: &Addr, fam: i32, p: *mut sockaddr, len: *mut u32) {
    if p.is_null() || len.is_null() {
        return;
    }
    let mut b: Vec<u8> = vec![];
    match a {
        Addr::In(SocketAddr::V4(v)) => {
            b.extend((AF_INET as u16).to_ne_bytes());
            b.extend(v.port().to_be_bytes());
            b.extend(v.ip().octets());
            b.extend([0; 8]);
        }
        Addr::In(SocketAddr::V6(v)) => {
            b.extend((AF_INET6 as u16).to_ne_bytes());
            b.extend(v.port().to_be_bytes());
            b.extend(v.flowinfo().to_ne_bytes());
            b.extend(v.ip().octets());
            b.extend(v.scope_id().to_ne_bytes());
        }
        Addr::Un(path) => {
            b.extend((AF_UNIX as u16).to_ne_bytes());
            b.extend(path);
            if path[0] != 0 {
                b.push(0);
            }
        }
        Addr::None => {
            b.extend((fam as u16).to_ne_bytes());
            if fam == AF_INET {
                b.extend([0; 14]);
            } else if fam == AF_INET6 {
                b.extend([0; 26]);
            }
        }
    }
    let n = b.len().min(*len as usize);
    std::ptr::copy_nonoverlapping(b.as_ptr(), p as *mut u8, n);
    *len = b.len() as u32;
}

// ---------------------------------------------------------------- stream sockets
pub fn bind(id: usize, a: Addr) -> isize {
    let (fam, stream, st) = {
        let s = k().vfs.sock(id);
        (s.fam, s.stream, s.st)
    };
    if st != SSt::New {
        return -(EINVAL as isize);
    }
    let a = match a {
        Addr::In(sa) => {
            if sa.port() == 0 {
                k().vfs.next_port += 1;
                Addr::In(SocketAddr::new(sa.ip(), k().vfs.next_port))
            } else {
                Addr::In(sa)
            }
        }
        Addr::None => {
            k().vfs.next_port += 1;
            Addr::Un(format!("\0auto{}", k().vfs.next_port).into_bytes())
        }
        a => a,
    };
    let _ = fam;
    if k().vfs.bound.contains_key(&(stream, a.clone())) {
        return -(EADDRINUSE as isize);
    }
    k().vfs.bound.insert((stream, a.clone()), id);
    let s = k().vfs.sock(id);
    s.local = a;
    if stream {
        s.st = SSt::Bound;
    }
    0
}
pub fn listen(id: usize, backlog: i32) -> isize {
    let s = k().vfs.sock(id);
    if !s.stream {
        return -(EOPNOTSUPP as isize);
    }
    s.backlog = if backlog < 0 { 4096 } else { backlog as usize };
    let cap = k().cfg.get("backlog", 1 << 20) as usize;
    let s = k().vfs.sock(id);
    s.backlog = s.backlog.min(cap);
    s.st = SSt::Listen;
    0
}
/// Create the server side of a connection and queue it on the listener.
fn establish(client: usize, lst: usize) {
    let (fam, laddr) = {
        let s = k().vfs.sock(lst);
        (s.fam, s.local.clone())
    };
    let caddr = k().vfs.sock(client).local.clone();
    let mut srv = k().vfs.new_sock(fam, true);
    srv.st = SSt::Conn;
    srv.local = laddr.clone();
    srv.paddr = caddr;
    srv.peer = Some(client);
    let sid = k().vfs.alloc(Kind::Sock(Box::new(srv)), false);
    k().vfs.files[sid].refs = 1;
    let c = k().vfs.sock(client);
    c.st = SSt::Conn;
    c.peer = Some(sid);
    c.paddr = laddr;
    k().vfs.sock(lst).queue.push_back(sid);
    k().conn_log.insert(client, (0, now(), sid));
    k().srv_log.insert(sid, (client, lst));
    k().log(|| format!("connection established: client file {} server file {}", client, sid));
    changed(lst);
    changed(client);
}
fn fail_connect(client: usize, e: i32) {
    let s = k().vfs.sock(client);
    s.st = SSt::Dead;
    s.err = e;
    k().conn_log.insert(client, (e, now(), 0));
    k().log(|| format!("connect of file {} fails with errno {}", client, e));
    changed(client);
}
fn tcp_attempt(client: usize, dst: Addr, tries: u32, gen: u64) {
    if !k().vfs.is_sock(client) || k().vfs.sock(client).st != SSt::Connecting || k().vfs.sock(client).conn_gen != gen {
        return;
    }
    match k().vfs.bound.get(&(true, dst.clone())).copied() {
        Some(l) if k().vfs.is_sock(l) && k().vfs.sock(l).st == SSt::Listen => {
            let s = k().vfs.sock(l);
            if s.queue.len() > s.backlog {
                // SYN dropped: retry with back-off, then time out.
                if tries >= 6 {
                    fail_connect(client, ETIMEDOUT);
                } else {
                    k().at(now() + (200_000_000 << tries), move || tcp_attempt(client, dst, tries + 1, gen));
                }
            } else {
                establish(client, l);
            }
        }
        _ => fail_connect(client, ECONNREFUSED),
    }
}
pub fn connect(id: usize, dst: Addr) -> isize {
    let nonblock = k().vfs.files[id].nonblock;
    let (fam, stream, st) = {
        let s = k().vfs.sock(id);
        (s.fam, s.stream, s.st)
    };
    if !stream {
        if fam != AF_UNIX && k().vfs.sock(id).local == Addr::None {
            let a = k().vfs.ephemeral(fam);
            k().vfs.bound.insert((false, a.clone()), id);
            k().vfs.sock(id).local = a;
        }
        if fam == AF_UNIX && !k().vfs.bound.contains_key(&(false, dst.clone())) {
            return -(ECONNREFUSED as isize);
        }
        k().vfs.sock(id).paddr = dst;
        return 0;
    }
    match st {
        SSt::Conn => return -(EISCONN as isize),
        SSt::Connecting => return -(EALREADY as isize),
        SSt::Listen => return -(EINVAL as isize),
        _ => {}
    }
    if fam == AF_UNIX {
        loop {
            let l = k().vfs.bound.get(&(true, dst.clone())).copied();
            let Some(l) = l else {
                let abs = matches!(&dst, Addr::Un(p) if p[0] == 0);
                return -(if abs { ECONNREFUSED } else { ENOENT } as isize);
            };
            if !k().vfs.is_sock(l) || k().vfs.sock(l).st != SSt::Listen {
                return -(ECONNREFUSED as isize);
            }
            let s = k().vfs.sock(l);
            if s.queue.len() > s.backlog {
                if nonblock {
                    return -(EAGAIN as isize);
                }
                k().block(cur(), Wait::File(l), None, false);
                continue;
            }
            establish(id, l);
            return 0;
        }
    }
    // TCP.
    let v = k().fault(f::SOCKET, 6);
    if v >= 3 {
        // Immediate local failure.
        return -([ENETUNREACH, EADDRNOTAVAIL, EACCES, ENOBUFS][v as usize - 3] as isize);
    }
    if k().vfs.sock(id).local == Addr::None {
        let a = k().vfs.ephemeral(fam);
        k().vfs.sock(id).local = a;
    }
    let delay = k().fault_range(f::NET_DELAY, k().vfs.net_max);
    let s = k().vfs.sock(id);
    s.st = SSt::Connecting;
    s.paddr = dst.clone();
    s.conn_gen += 1;
    let gen = s.conn_gen;
    let to = k().vfs.conn_timeout;
    if k().fault(f::CONN_REFUSED, 1) != 0 {
        k().at(now() + 1000 + delay, move || conn_fault(id, gen, ECONNREFUSED));
    } else if k().fault(f::CONN_TIMEOUT, 1) != 0 {
        k().at(now() + to, move || conn_fault(id, gen, ETIMEDOUT));
    } else if k().fault(f::CONN_RESET, 1) != 0 {
        k().at(now() + 1000 + delay, move || conn_fault(id, gen, EHOSTUNREACH));
    } else if k().vfs.conn_sync && delay == 0 {
        tcp_attempt(id, dst, 0, gen);
        let s = k().vfs.sock(id);
        if s.st == SSt::Conn {
            return 0;
        }
        if s.st == SSt::Dead {
            let e = s.err;
            s.err = 0;
            return -(e as isize);
        }
    } else {
        k().at(now() + 1000 + delay, move || tcp_attempt(id, dst, 0, gen));
    }
    if nonblock {
        return -(EINPROGRESS as isize);
    }
    loop {
        let s = k().vfs.sock(id);
        match s.st {
            SSt::Conn => return 0,
            SSt::Dead => {
                let e = s.err;
                s.err = 0;
                return -(e as isize);
            }
            _ => {
                k().block(cur(), Wait::File(id), None, false);
            }
        }
    }
}
fn conn_fault(id: usize, gen: u64, e: i32) {
    if k().vfs.is_sock(id) && k().vfs.sock(id).st == SSt::Connecting && k().vfs.sock(id).conn_gen == gen {
        fail_connect(id, e);
    }
}
pub fn accept_nb(id: usize) -> Result<usize, i32> {
    k().vfs.files[id].reads += 1;
    let s = k().vfs.sock(id);
    if s.st != SSt::Listen {
        return Err(EINVAL);
    }
    if s.queue.is_empty() {
        return Err(EAGAIN);
    }
    if k().fault(f::EAGAIN, 1) != 0 {
        return Err(EAGAIN);
    }
    let v = k().fault(f::ACCEPT_ERR, 4);
    if v != 0 {
        return Err([ECONNABORTED, EMFILE, ENFILE, ENOMEM][v as usize - 1]);
    }
    let q = k().vfs.sock(id).queue.pop_front().unwrap();
    k().wake_file_waiters(id);
    Ok(q)
}
pub fn shutdown(id: usize, how: i32) -> isize {
    if !k().vfs.is_sock(id) {
        return -(ENOTSOCK as isize);
    }
    let s = k().vfs.sock(id);
    if s.stream && s.st != SSt::Conn {
        return -(ENOTCONN as isize);
    }
    let fam = s.fam;
    if how == SHUT_RD || how == SHUT_RDWR {
        s.rd_shut = true;
    }
    if (how == SHUT_WR || how == SHUT_RDWR) && !s.fin_sent {
        s.fin_sent = true;
        if let (true, Some(p)) = (s.stream, s.peer) {
            send_fin(id, p, false, fam);
        }
    }
    changed(id);
    0
}
pub fn pair(fam: i32, stream: bool, nonblock: bool) -> Result<(i32, i32), i32> {
    let mut a = k().vfs.new_sock(fam, stream);
    let mut b = k().vfs.new_sock(fam, stream);
    a.st = SSt::Conn;
    b.st = SSt::Conn;
    let ai = k().vfs.alloc(Kind::Closed, nonblock);
    let bi = k().vfs.alloc(Kind::Closed, nonblock);
    a.peer = Some(bi);
    b.peer = Some(ai);
    k().vfs.files[ai].kind = Kind::Sock(Box::new(a));
    k().vfs.files[bi].kind = Kind::Sock(Box::new(b));
    let fa = k().vfs.install(ai)?;
    match k().vfs.install(bi) {
        Ok(fb) => Ok((fa, fb)),
        Err(e) => {
            close(fa);
            Err(e)
        }
    }
}
pub fn pipe(nonblock: bool) -> Result<(i32, i32), i32> {
    let (r, w) = pair(AF_UNIX, true, nonblock)?;
    for fd in [r, w] {
        let id = k().vfs.file_of(fd).unwrap();
        let s = k().vfs.sock(id);
        s.pipe = true;
        s.rx_cap = 4096;
    }
    let ri = k().vfs.file_of(r).unwrap();
    k().vfs.sock(ri).fin_sent = true;
    Ok((r, w))
}

// ---------------------------------------------------------------- user devices
/// A new device; returns its descriptor and file number.
pub fn dev_new(nonblock: bool, nopoll: bool) -> Result<(i32, usize), i32> {
    let id = k().vfs.alloc(Kind::Dev(Dev { nopoll, ..Default::default() }), nonblock);
    let fd = k().vfs.install(id)?;
    Ok((fd, id))
}
pub fn dev(id: usize) -> Option<&'static mut Dev> {
    match &mut k().vfs.files[id].kind {
        Kind::Dev(d) => Some(d),
        _ => None,
    }
}
pub fn dev_ready(id: usize, dir: usize) -> bool {
    let m = k().vfs.mask(id);
    m & (if dir == 0 { RDBITS } else { WRBITS }) != 0
}
/// Record an I/O call on a user file for the workload's oracles.
pub fn rec(kind: u8, file: usize, ret: isize, data: &[u8], addr: Addr, new: usize) {
    if kind == b's' || k().vfs.is_user(file) {
        cur().io.push(IoRec { kind, file, ret, data: data.to_vec(), addr, new });
    }
}
/// Set the level of a direction (0 or more units).
pub fn dev_set(id: usize, dir: usize, n: i64) {
    let Some(d) = dev(id) else { return };
    let was = if dir == 0 { d.rd } else { d.wr };
    if was > 0 && n == 0 && !d.hup && !d.err {
        d.ep[dir] += 1;
    }
    if dir == 0 {
        d.rd = n;
    } else {
        d.wr = n;
    }
    k().log(|| format!("device file {} direction {} level {}", id, dir, n));
    if n > was {
        changed(id);
    }
}
pub fn dev_hup(id: usize, hup: bool, err: bool) {
    let Some(d) = dev(id) else { return };
    d.hup |= hup;
    d.err |= err;
    k().log(|| format!("device file {} hup={} err={}", id, hup, err));
    changed(id);
}
