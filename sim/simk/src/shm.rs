//! Result area shared between a run (child process) and its worker (parent).
pub const MAXDEC: usize = 60_000;
pub const LOGMAX: usize = 1 << 20;
pub const NFAULT: usize = 40;
pub const NPROBE: usize = 128;
pub use simp::NCOV;

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dec {
    pub kind: u32,
    pub tid: u32,
    pub at: u64,
    pub val: u64,
}
/// Decision kinds.
pub const D_PRE: u32 = 1;
pub const D_STALL: u32 = 2;
pub const D_JUMP: u32 = 3;
pub const D_BLK: u32 = 4;
pub const D_FAULT: u32 = 16; // + fault kind in tid

#[repr(C)]
pub struct Shm {
    pub status: u32, // 0 = died, 1 = ok, 2 = violation, 3 = harness error
    pub props: [u8; 64],
    pub class: [u8; 64],
    pub msg: [u8; 2048],
    pub points: u64,
    pub switches: u64,
    pub events: u64,
    pub syscalls: u64,
    pub now: u64,
    pub hash: u64,
    pub ophash: u64,
    pub threads: u64,
    pub faults: [u64; NFAULT],
    pub probes: [u64; NPROBE],
    pub ndec: u64,
    pub dec: [Dec; MAXDEC],
    pub nlog: u64,
    pub log: [u8; LOGMAX],
    pub cov: [u8; NCOV],
    pub obligations: u64,
}
fn put(dst: &mut [u8], s: &str) {
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}
fn get(src: &[u8]) -> String {
    let n = src.iter().position(|b| *b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}
impl Shm {
    pub fn set_violation(&mut self, props: &str, class: &str, msg: &str) {
        put(&mut self.props, props);
        put(&mut self.class, class);
        put(&mut self.msg, msg);
    }
    pub fn violation(&self) -> (String, String, String) {
        (get(&self.props), get(&self.class), get(&self.msg))
    }
    pub fn reset(&mut self) {
        self.status = 0;
        self.props[0] = 0;
        self.class[0] = 0;
        self.msg[0] = 0;
        self.points = 0;
        self.switches = 0;
        self.events = 0;
        self.syscalls = 0;
        self.now = 0;
        self.hash = 0;
        self.ophash = 0;
        self.threads = 0;
        self.faults = [0; NFAULT];
        self.probes = [0; NPROBE];
        self.ndec = 0;
        self.nlog = 0;
        self.obligations = 0;
    }
    pub fn log_str(&self) -> String {
        String::from_utf8_lossy(&self.log[..self.nlog as usize]).into_owned()
    }
    pub fn decs(&self) -> Vec<Dec> {
        self.dec[..self.ndec as usize].to_vec()
    }
}
