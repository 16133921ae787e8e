//! Process environment of a simulated run: random bytes (hash seeds), heap contents.
use crate::rng::Rng;
use crate::sched;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

static ACTIVE: AtomicBool = AtomicBool::new(false);
struct C(UnsafeCell<Rng>);
unsafe impl Sync for C {}
static RNG: C = C(UnsafeCell::new(Rng::new(0)));
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static FILL: AtomicU32 = AtomicU32::new(0);

#[inline(never)]
pub fn active() -> bool {
    ACTIVE.load(Relaxed)
}

/// from now on all "random" bytes of this process derive from `seed`
#[inline(never)]
pub fn set_seed(seed: u64) {
    unsafe { *RNG.0.get() = Rng::new(seed) };
    HASH_SEED.store(seed, Relaxed);
    CLOCK_READS.store(0, Relaxed);
    ACTIVE.store(true, Relaxed);
}

/// The clock of this environment: how far it moves between this reading and the last one, beyond
/// the simulated work, and by how much the wall clock is off.  In a third of the environments time
/// stands almost still, in the others the process is slow, suspended, or its wall clock is set.
#[inline(never)]
pub fn clock(wall: bool) -> (u64, i64) {
    let seed = HASH_SEED.load(Relaxed);
    if !active() || seed % 3 == 0 {
        return (0, 0);
    }
    let n = CLOCK_READS.fetch_add(1, Relaxed);
    let h = crate::rng::mix(crate::rng::mix(seed, 0xC10C), n);
    let step = [0, 0, 1_000, 1_000_000, 200_000_000, 3_000_000_000, 7_200_000_000_000][(h % 7) as usize];
    let off = if wall {
        // somewhere between 1973 and 2060, and now and then set back or forth
        let base = 100_000_000 + (seed >> 8) % 2_700_000_000;
        let jump = if h & 0xF00 == 0 { (h >> 16) % 2_000_000 } else { 0 };
        base as i64 - jump as i64
    } else {
        0
    };
    if step > 0 || off != 0 {
        sched::fault_fired(sched::F_CLOCK);
    }
    (step, off.saturating_mul(1_000_000_000))
}

/// the number of the simulated process
#[inline(never)]
pub fn pid() -> i32 {
    2 + ((HASH_SEED.load(Relaxed) >> 20) % 4_000_000) as i32
}

#[inline(never)]
pub fn set_fill(f: u32) {
    FILL.store(f, Relaxed);
}

#[inline(never)]
pub unsafe fn fill(p: *mut u8, n: usize) -> usize {
    let r = &mut *RNG.0.get();
    for i in 0..n {
        *p.add(i) = r.next() as u8;
    }
    sched::fault_fired(sched::F_HASH);
    n
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if active() {
        return fill(p, n) as isize;
    }
    sched::errno_ret(sched::raw6(libc::SYS_getrandom, p as usize, n, flags as usize, 0, 0, 0))
}

/// ahash asks this for every RandomState::new()
struct Src;
impl ahash::random_state::RandomSource for Src {
    fn gen_hasher_seed(&self) -> usize {
        let s = HASH_SEED.load(Relaxed);
        crate::rng::mix(s, 77) as usize
    }
}

#[inline(never)]
pub fn install_ahash() {
    let _ = ahash::random_state::set_random_source(Src);
}

pub struct SimAlloc;
static LIVE: AtomicUsize = AtomicUsize::new(0);

/// Every block starts with a header that says in which period it was allocated (by simulated code;
/// the simulator's own blocks belong to period OWN), so that what is left behind can be counted.
pub const PERIODS: usize = 256;
const OWN: u32 = PERIODS as u32 - 1;
static PERIOD: AtomicU32 = AtomicU32::new(0);
static BLOCKS: [AtomicUsize; PERIODS] = [const { AtomicUsize::new(0) }; PERIODS];
static BYTES: [AtomicUsize; PERIODS] = [const { AtomicUsize::new(0) }; PERIODS];
static IN_USE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

#[inline(never)]
pub fn set_period(p: usize) {
    PERIOD.store((p as u32).min(OWN - 1), Relaxed);
}

/// blocks and bytes alive that were allocated in period `p`
#[inline(never)]
pub fn alive(p: usize) -> (usize, usize) {
    (BLOCKS[p].load(Relaxed), BYTES[p].load(Relaxed))
}

/// blocks and bytes alive that were allocated by simulated code
#[inline(never)]
pub fn alive_all() -> (usize, usize) {
    (0..PERIODS - 1).map(alive).fold((0, 0), |a, b| (a.0 + b.0, a.1 + b.1))
}

/// bytes in use by simulated code, and the most there were since `reset_peak`
#[inline(never)]
pub fn peak() -> (usize, usize) {
    (IN_USE.load(Relaxed), PEAK.load(Relaxed))
}

#[inline(never)]
pub fn reset_peak() {
    PEAK.store(IN_USE.load(Relaxed), Relaxed);
}

/// The distance from the start of the block below to the bytes handed out.  What needs no more than
/// eight byte alignment gets no more now and then, if heap contents are simulated at all.
#[inline(always)]
fn head(l: &Layout) -> usize {
    let f = FILL.load(Relaxed);
    if l.align() <= 8 && f != 0 {
        16 + (crate::rng::mix(f as u64, LIVE.load(Relaxed) as u64) & 8) as usize
    } else {
        l.align().max(16)
    }
}

/// the header is right below the bytes handed out: period and distance
unsafe fn enter(base: *mut u8, head: usize, size: usize) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let p = if sched::simulated() { PERIOD.load(Relaxed) } else { OWN };
    let q = base.add(head);
    *(q as *mut u32).sub(4) = p;
    *(q as *mut u32).sub(3) = head as u32;
    BLOCKS[p as usize].fetch_add(1, Relaxed);
    BYTES[p as usize].fetch_add(size, Relaxed);
    if p != OWN {
        let n = IN_USE.fetch_add(size, Relaxed) + size;
        if n > PEAK.load(Relaxed) {
            PEAK.store(n, Relaxed);
        }
    }
    q
}

/// distance of the block from its start
unsafe fn leave(q: *mut u8, size: usize) -> usize {
    let k = *(q as *mut u32).sub(4) as usize;
    BLOCKS[k].fetch_sub(1, Relaxed);
    BYTES[k].fetch_sub(size, Relaxed);
    if k != OWN as usize {
        IN_USE.fetch_sub(size, Relaxed);
    }
    *(q as *mut u32).sub(3) as usize
}

fn big(l: &Layout, head: usize) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + head, l.align().max(16)) }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::yield_point(sched::K_ALLOC);
        let h = head(&l);
        let p = enter(System.alloc(big(&l, h)), h, l.size());
        junk(p, l.size(), LIVE.fetch_add(1, Relaxed));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        junk(p, l.size().min(4096), 1);
        let h = leave(p, l.size());
        System.dealloc(p.sub(h), big(&l, h))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        sched::yield_point(sched::K_ALLOC);
        let h = head(&l);
        enter(System.alloc_zeroed(big(&l, h)), h, l.size())
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        sched::yield_point(sched::K_ALLOC);
        let h = leave(p, l.size());
        let base = System.realloc(p.sub(h), big(&l, h), n + h);
        if base.is_null() {
            enter(p.sub(h), h, l.size());
            return base;
        }
        let q = enter(base, h, n);
        if n > l.size() {
            junk(q.add(l.size()), n - l.size(), 2);
        }
        q
    }
}

#[inline]
unsafe fn junk(p: *mut u8, n: usize, salt: usize) {
    let f = FILL.load(Relaxed);
    if f != 0 && !p.is_null() {
        std::ptr::write_bytes(p, (f as u8) ^ (salt as u8 & (f >> 8) as u8), n.min(1 << 16));
    }
}

static VARIABLES: AtomicU64 = AtomicU64::new(0);

/// Every variable of the process environment that nobody has set exists from now on and has the
/// same value, except those of the system and of the libraries below linestring.
#[inline(never)]
pub fn set_variables(n: u64) {
    VARIABLES.store(n, Relaxed);
    sched::fault_fired(sched::F_VARIABLE);
}

extern "C" {
    static environ: *const *const libc::c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let name = std::ffi::CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let line = std::ffi::CStr::from_ptr(*p).to_bytes();
        if line.len() > name.len() && line.starts_with(name) && line[name.len()] == b'=' {
            return (*p).add(name.len() + 1) as *mut libc::c_char;
        }
        p = p.add(1);
    }
    let n = VARIABLES.load(Relaxed);
    if n == 0 || !sched::ACTIVE.load(Relaxed) || !sched::simulated() {
        return std::ptr::null_mut();
    }
    let known: [&[u8]; 16] = [
        b"RUST", b"RAYON", b"LSSIM", b"VERIF", b"MALLOC", b"GLIBC", b"GCONV", b"LD_", b"LC_", b"LANG", b"HOME", b"PATH", b"PWD",
        b"TMP", b"TZ", b"USER",
    ];
    if known.iter().any(|k| name.starts_with(k)) {
        return std::ptr::null_mut();
    }
    let v: [&[u8]; 6] = [b"1\0", b"0\0", b"\0", b"2\0", b"true\0", b"0.5\0"];
    v[(n % 6) as usize].as_ptr() as *mut libc::c_char
}
