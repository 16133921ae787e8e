//! Memory shared between a worker process and the simulated process it forks for every run.
//! Everything a run has to report survives here even if the simulated process dies or is killed.
use crate::rng::mix;

pub const MAX_DEV: usize = 1 << 19;
pub const MAX_MSG: usize = 1 << 23;
pub const MAX_IMG: usize = 1 << 22;
pub const MAX_TRACE: usize = 4096;
pub const NKIND: usize = 16;
pub const NFAULT: usize = 32;

pub const ST_RUNNING: u32 = 0;
pub const ST_DONE: u32 = 1;
pub const ST_DEADLOCK: u32 = 2;
pub const ST_BUDGET: u32 = 3;
pub const ST_CRASHED: u32 = 4; // injected process crash
pub const ST_HARNESS: u32 = 5; // simulator limitation hit

#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub threads: u32,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub hash: u64,
    pub vec_mask: u64,
    pub max_runnable: u64,
    pub vec_ops: u64,
    pub kinds: [u64; NKIND],
    pub faults: [u64; NFAULT],
    pub ndev: u32,
    pub dev_overflow: u32,
    pub msg_len: u32,
    pub img_len: u32,
    pub ntrace: u32,
    pub pad: u32,
    pub trace: [(u32, u8, u8, u8, u8); MAX_TRACE],
    pub dev: [(u32, u32); MAX_DEV],
    pub msg: [u8; MAX_MSG],
    pub img: [u8; MAX_IMG],
}

impl Shm {
    /// the second value is the descriptor of the memory, for a process that replaces its image
    pub fn new() -> (&'static mut Shm, i32) {
        unsafe {
            let fd = libc::memfd_create(b"lssim\0".as_ptr() as *const _, 0);
            if fd >= 0 {
                assert_eq!(0, libc::ftruncate(fd, std::mem::size_of::<Shm>() as i64));
            }
            (Shm::map(fd), fd)
        }
    }
    pub fn map(fd: i32) -> &'static mut Shm {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shm>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_NORESERVE | if fd < 0 { libc::MAP_ANONYMOUS } else { 0 },
                fd,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            &mut *(p as *mut Shm)
        }
    }
    pub fn reset(&mut self) {
        self.status = ST_RUNNING;
        self.threads = 0;
        self.steps = 0;
        self.sim_ns = 0;
        self.switches = 0;
        self.hash = 0x1234_5678;
        self.vec_mask = 0;
        self.max_runnable = 0;
        self.vec_ops = 0;
        self.kinds = [0; NKIND];
        self.faults = [0; NFAULT];
        self.ndev = 0;
        self.dev_overflow = 0;
        self.msg_len = 0;
        self.img_len = 0;
        self.ntrace = 0;
    }
    pub fn note(&mut self, v: u64) {
        self.hash = mix(self.hash, v);
    }
    pub fn set_msg(&mut self, s: &str) {
        let n = s.len().min(MAX_MSG);
        self.msg[..n].copy_from_slice(&s.as_bytes()[..n]);
        self.msg_len = n as u32;
    }
    pub fn message(&self) -> String {
        String::from_utf8_lossy(&self.msg[..self.msg_len as usize]).into_owned()
    }
}
