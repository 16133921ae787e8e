//! The thread scheduler: every thread of the simulated process (the rayon workers, the calling
//! threads) is a real thread, but exactly one holds the token and runs; the others are parked on a
//! raw futex.  The token changes hands only at the yield points below, and who gets it is decided
//! by a seeded policy or by an explicit recorded schedule.  The yield points are: vector operations
//! of the simulated vector types, atomic operations and accesses to statics made by linestring (and by
//! the generic code instantiated for it), heap allocations, futex waits and wakes (all of std's Mutex,
//! Condvar, Once, park, and so all of rayon's sleeping), sched_yield, sleeps, thread creation, join
//! and exit, clock reads, and (simulated) file system calls.
//!
//! The real `pthread_create`, `pthread_join`, `syscall(SYS_futex..)`, `sched_yield`, `nanosleep`,
//! `clock_gettime`, `sched_getaffinity` are replaced by symbol interposition, no change in the code
//! under test is needed.
use crate::rng::Rng;
use crate::shm::*;
use libc::{c_char, c_int, c_long, c_void, pthread_attr_t, pthread_t, timespec};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};

pub const MAXT: usize = 64;

pub const K_VEC: u8 = 0;
pub const K_ALLOC: u8 = 1;
pub const K_FWAIT: u8 = 2;
pub const K_FWAKE: u8 = 3;
pub const K_YIELD: u8 = 4;
pub const K_SLEEP: u8 = 5;
pub const K_CREATE: u8 = 6;
pub const K_JOIN: u8 = 7;
pub const K_EXIT: u8 = 8;
pub const K_CLOCK: u8 = 9;
pub const K_FS: u8 = 10;
pub const K_ATOMIC: u8 = 11;
pub const K_STATIC: u8 = 12;
pub const KIND_NAMES: [&str; 13] = [
    "vector_op", "alloc", "futex_wait", "futex_wake", "sched_yield", "sleep", "thread_create",
    "thread_join", "thread_exit", "clock", "fs_call", "atomic", "static_access",
];

// fault counters (index in Shm::faults)
pub const F_SPURIOUS: usize = 0;
pub const F_PREEMPT: usize = 1;
pub const F_STARVE: usize = 2;
pub const F_WAKE_ORDER: usize = 3;
pub const F_PANIC: usize = 4;
pub const F_HASH: usize = 5;
pub const F_SHORT: usize = 6;
pub const F_EINTR: usize = 7;
pub const F_IOERR: usize = 8;
pub const F_ENOSPC: usize = 9;
pub const F_ZERO: usize = 10;
pub const F_CRASH: usize = 11;
pub const F_OPENERR: usize = 12;
pub const F_TORN: usize = 13;
pub const F_TIMEJUMP: usize = 14;
pub const F_NONFINITE: usize = 15;
pub const F_BADINDEX: usize = 16;
pub const F_JUNK: usize = 17;
pub const F_CLOCK: usize = 18;
pub const F_STACK: usize = 19;
pub const F_VARIABLE: usize = 20;
pub const FAULT_NAMES: [&str; 21] = [
    "spurious_futex_wakeup", "preemption", "worker_starvation_decision", "wake_order_permuted",
    "panic_in_vector_op", "hash_seed_changed", "short_write", "eintr", "io_error", "disk_full",
    "write_returns_zero", "process_crash", "open_error", "torn_write_then_crash", "timeout_jump",
    "non_finite_input", "out_of_range_index", "heap_junk_pattern",
    "clock_jump_or_skew", "little_stack", "environment_variables_set",
];

const FAULT_VALUE: u32 = 1 << 16;
const PICK_VALUE: u32 = 1 << 17;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Policy {
    /// switch only where a thread blocks, yields or ends
    Lazy,
    /// at random yield points (on average every `gap`) hand the token to a random runnable thread
    Walk { gap: u32 },
    /// probabilistic concurrency testing: random priorities, `depth` priority changes within `len` steps
    Pct { depth: u32, len: u32 },
    RoundRobin { quantum: u32 },
    /// `Walk`, but the threads in the `victims` bit mask run only when nothing else can
    Starve { victims: u64, gap: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    pub policy: Policy,
    pub seed: u64,
    /// per mille of futex waits that return without a wake-up
    pub spurious: u32,
    /// number of cpus the process believes it has
    pub ncpu: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub explicit: Option<Vec<(u32, u32)>>,
    pub budget: u32,
    /// per mille of the accesses to atomics and static variables after which another thread goes on
    #[serde(default)]
    pub hot: u32,
}

impl Sched {
    pub fn simple() -> Self {
        Sched { policy: Policy::Lazy, seed: 1, spurious: 0, ncpu: 4, explicit: None, budget: 6_000_000, hot: 0 }
    }
    pub fn gen(r: &mut Rng, threads: u32) -> Self {
        let policy = match r.below(12) {
            0 => Policy::Lazy,
            1..=4 => Policy::Walk { gap: [2u32, 4, 8, 16, 40, 100, 400][r.below(7) as usize] },
            5..=7 => Policy::Pct {
                depth: r.us(1, 8) as u32,
                len: [300u32, 1000, 3000, 10_000, 30_000][r.below(5) as usize],
            },
            8..=9 => Policy::RoundRobin { quantum: [1u32, 2, 5, 17, 60, 200][r.below(6) as usize] },
            _ => {
                let mut victims = 0u64;
                for _ in 0..r.us(1, (threads as usize).max(1)) {
                    victims |= 1 << r.below(threads as u64 + 2);
                }
                Policy::Starve { victims, gap: [3u32, 10, 50, 200][r.below(4) as usize] }
            }
        };
        let spurious = if r.chance(1, 3) { [20u32, 150, 500][r.below(3) as usize] } else { 0 };
        let hot = [0, 0, 0, 100, 400, 800][r.below(6) as usize];
        Sched { policy, seed: r.next(), spurious, ncpu: r.us(1, 8) as u32, explicit: None, budget: 6_000_000, hot }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Free,
    Runnable,
    Futex,
    Join,
    Sleep,
    Done,
}

struct Slot {
    st: St,
    word: AtomicU32,
    addr: usize,
    bitset: u32,
    deadline: u64,
    order: u64,
    timed_out: bool,
    join_on: usize,
    pth: pthread_t,
    has_pth: bool,
    /// the thread has been joined, the slot may be used again
    gone: bool,
    prio: i64,
}

struct Sim {
    step: u64,
    next_event: u64,
    budget: u64,
    mask: u64, // runnable
    nthreads: usize,
    now: u64,
    order: u64,
    rng: Rng,
    frng: Rng,
    policy: Policy,
    explicit: bool,
    hot: u32,
    dev_in: *const (u32, u32),
    dev_n: usize,
    dev_i: usize,
    spurious: u32,
    ncpu: u32,
    low: i64,
    changes: [u32; 16],
    nchanges: usize,
    panic_at: u64,
    shm: *mut Shm,
    slots: [Slot; MAXT],
}

struct G(UnsafeCell<Sim>);
unsafe impl Sync for G {}

const EMPTY: Slot = Slot {
    st: St::Free,
    word: AtomicU32::new(0),
    addr: 0,
    bitset: 0,
    deadline: u64::MAX,
    order: 0,
    timed_out: false,
    join_on: 0,
    pth: 0,
    has_pth: false,
    gone: false,
    prio: 0,
};

static SIM: G = G(UnsafeCell::new(Sim {
    step: 0,
    next_event: u64::MAX,
    budget: u64::MAX,
    mask: 0,
    nthreads: 0,
    now: 0,
    order: 0,
    rng: Rng::new(0),
    frng: Rng::new(0),
    policy: Policy::Lazy,
    explicit: false,
    hot: 0,
    dev_in: std::ptr::null(),
    dev_n: 0,
    dev_i: 0,
    spurious: 0,
    ncpu: 4,
    low: 0,
    changes: [0; 16],
    nchanges: 0,
    panic_at: u64::MAX,
    shm: std::ptr::null_mut(),
    slots: [EMPTY; MAXT],
}));

pub static ACTIVE: AtomicBool = AtomicBool::new(false);

thread_local! {
    /// 0 = not simulated, otherwise tid + 1
    static TID: Cell<u32> = const { Cell::new(0) };
    static IN_HOOK: Cell<bool> = const { Cell::new(false) };
}

#[inline(always)]
fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM.0.get() }
}

#[inline(never)]
pub fn shm() -> Option<&'static mut Shm> {
    let p = sim().shm;
    if p.is_null() {
        None
    } else {
        Some(unsafe { &mut *p })
    }
}

#[inline(never)]
pub fn fault_fired(kind: usize) {
    if let Some(s) = shm() {
        s.faults[kind] += 1;
    }
}

/// suppress yield points (used while simulator code itself runs)
pub fn in_hook<R>(f: impl FnOnce() -> R) -> R {
    let old = IN_HOOK.with(|h| h.replace(true));
    let r = f();
    IN_HOOK.with(|h| h.set(old));
    r
}

#[inline(always)]
fn me() -> Option<usize> {
    if !ACTIVE.load(Relaxed) {
        return None;
    }
    let t = TID.with(|t| t.get());
    if t == 0 || IN_HOOK.with(|h| h.get()) {
        None
    } else {
        Some(t as usize - 1)
    }
}

/// is the calling code part of the simulated program (and not of the simulator)?
#[inline(never)]
pub fn simulated() -> bool {
    me().is_some()
}

/// threads that have been started and have not ended
#[inline(never)]
pub fn live_threads() -> usize {
    let g = sim();
    g.slots[..g.nthreads].iter().filter(|s| !matches!(s.st, St::Done)).count()
}

// ------------------------------------------------------------------ raw system calls

#[inline(always)]
pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b,
        in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
        options(nostack));
    r
}

#[inline(never)]
pub fn errno_ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        unsafe { *libc::__errno_location() = -r as c_int };
        -1
    } else {
        r
    }
}

fn park(word: &AtomicU32) {
    while word.swap(0, Acquire) == 0 {
        unsafe {
            raw6(libc::SYS_futex, word as *const _ as usize, 128, 0, 0, 0, 0);
        }
    }
    // the thread that handed over has exited: wait until the kernel has seen the last of it.  What the
    // C library does at the very end of a thread (its stack goes to a cache, its malloc arena to a
    // free list) would otherwise run beside us, and decide which addresses we get
    let gone = EXITING.swap(0, Relaxed);
    if gone != 0 {
        unsafe {
            let pid = raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as usize;
            while raw6(libc::SYS_tgkill, pid, gone as usize, 0, 0, 0, 0) == 0 {
                raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
            }
        }
    }
}

/// kernel thread id of a thread that has just handed over for the last time
static EXITING: AtomicU32 = AtomicU32::new(0);

fn unpark(word: &AtomicU32) {
    word.store(1, Release);
    unsafe {
        raw6(libc::SYS_futex, word as *const _ as usize, 129, 1, 0, 0, 0);
    }
}

#[inline(never)]
pub fn end_process(status: u32) -> ! {
    if let Some(s) = shm() {
        publish(s);
        s.status = status;
    }
    unsafe {
        raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    loop {}
}

fn publish(s: &mut Shm) {
    let g = sim();
    s.steps = g.step;
    s.sim_ns = g.now;
    s.threads = g.nthreads as u32;
}

// ------------------------------------------------------------------ control

#[inline(never)]
pub fn start(cfg: &Sched, shm: *mut Shm) {
    let g = sim();
    g.step = 0;
    g.now = 0;
    g.order = 0;
    g.budget = cfg.budget as u64;
    g.hot = cfg.hot;
    g.mask = 1;
    g.nthreads = 1;
    g.rng = Rng::new(cfg.seed);
    g.frng = Rng::new(cfg.seed ^ 0xF00D_F00D);
    g.policy = cfg.policy.clone();
    g.spurious = cfg.spurious;
    g.ncpu = cfg.ncpu.clamp(1, 64);
    g.low = 0;
    g.shm = shm;
    g.panic_at = u64::MAX;
    g.explicit = cfg.explicit.is_some();
    if let Some(e) = &cfg.explicit {
        let v: &'static mut Vec<(u32, u32)> = Box::leak(Box::new(e.clone()));
        g.dev_in = v.as_ptr();
        g.dev_n = v.len();
    }
    g.dev_i = 0;
    g.nchanges = 0;
    if let Policy::Pct { depth, len } = g.policy {
        g.nchanges = (depth as usize).min(16);
        for i in 0..g.nchanges {
            g.changes[i] = 1 + g.rng.below(len as u64) as u32;
        }
        g.changes[..g.nchanges].sort_unstable();
    }
    g.slots[0].st = St::Runnable;
    g.slots[0].prio = new_prio(g);
    TID.with(|t| t.set(1));
    g.next_event = 0;
    arm(g);
    ACTIVE.store(true, SeqCst);
}

#[inline(never)]
pub fn stop() {
    ACTIVE.store(false, SeqCst);
    TID.with(|t| t.set(0));
    if let Some(s) = shm() {
        publish(s);
    }
}

#[inline(never)]
pub fn set_panic_at(n: u64) {
    let g = sim();
    g.panic_at = if n == u64::MAX { n } else { n.saturating_add(shm().map_or(0, |s| s.vec_ops)) };
}

#[inline(never)]
pub fn current_tid() -> usize {
    TID.with(|t| t.get()) as usize
}

fn new_prio(g: &mut Sim) -> i64 {
    (g.rng.next() >> 2) as i64 + 1_000_000
}

/// when does the policy want to be asked next?
fn arm(g: &mut Sim) {
    let s = g.step;
    if g.explicit {
        let devs = unsafe { std::slice::from_raw_parts(g.dev_in, g.dev_n) };
        while g.dev_i < g.dev_n && devs[g.dev_i].0 as u64 <= s {
            g.dev_i += 1;
        }
        g.next_event = if g.dev_i < g.dev_n { devs[g.dev_i].0 as u64 } else { g.budget };
    } else {
        g.next_event = match g.policy {
            Policy::Lazy => g.budget,
            Policy::Walk { gap } | Policy::Starve { gap, .. } => s + 1 + g.rng.below(2 * gap as u64),
            Policy::RoundRobin { quantum } => s + quantum as u64,
            Policy::Pct { .. } => {
                let mut n = g.budget;
                for i in 0..g.nchanges {
                    if g.changes[i] as u64 > s {
                        n = g.changes[i] as u64;
                        break;
                    }
                }
                n
            }
        };
    }
    g.next_event = g.next_event.min(g.budget);
}

fn explicit_at(g: &mut Sim) -> Option<u32> {
    let devs = unsafe { std::slice::from_raw_parts(g.dev_in, g.dev_n) };
    while g.dev_i < g.dev_n && (devs[g.dev_i].0 as u64) < g.step {
        g.dev_i += 1;
    }
    if g.dev_i < g.dev_n && devs[g.dev_i].0 as u64 == g.step {
        Some(devs[g.dev_i].1)
    } else {
        None
    }
}

fn record(g: &mut Sim, v: u32) {
    let s = unsafe { &mut *g.shm };
    let n = s.ndev as usize;
    if n < MAX_DEV {
        s.dev[n] = (g.step as u32, v);
        s.ndev += 1;
    } else {
        s.dev_overflow = 1;
    }
}

fn cyclic(mask: u64, me: usize) -> usize {
    let hi = mask & !((2u64 << me).wrapping_sub(1));
    if hi != 0 {
        hi.trailing_zeros() as usize
    } else {
        mask.trailing_zeros() as usize
    }
}

fn nth_bit(mut mask: u64, n: u64) -> usize {
    for _ in 0..n {
        mask &= mask - 1;
    }
    mask.trailing_zeros() as usize
}

fn highest(g: &Sim, mask: u64) -> usize {
    let mut best = mask.trailing_zeros() as usize;
    let mut m = mask;
    while m != 0 {
        let t = m.trailing_zeros() as usize;
        m &= m - 1;
        if g.slots[t].prio > g.slots[best].prio {
            best = t;
        }
    }
    best
}

fn check_budget(g: &mut Sim) {
    if g.step >= g.budget {
        end_process(ST_BUDGET);
    }
}

/// the policy has asked to be consulted at this (non blocking) yield point
#[cold]
fn preempt(me: usize, kind: u8) {
    let g = sim();
    check_budget(g);
    let target = if g.explicit {
        match explicit_at(g) {
            Some(v) if v < MAXT as u32 && g.mask & (1 << v) != 0 => v as usize,
            _ => me,
        }
    } else {
        match g.policy {
            Policy::Lazy => me,
            Policy::Walk { .. } => {
                let n = g.mask.count_ones() as u64;
                let k = g.rng.below(n);
                nth_bit(g.mask, k)
            }
            Policy::RoundRobin { .. } => cyclic(g.mask, me),
            Policy::Starve { victims, .. } => {
                let m = g.mask & !victims;
                if m == 0 {
                    me
                } else {
                    if g.mask & victims != 0 {
                        fault_fired(F_STARVE);
                    }
                    let k = g.rng.below(m.count_ones() as u64);
                    nth_bit(m, k)
                }
            }
            Policy::Pct { .. } => {
                let s = g.step;
                if (0..g.nchanges).any(|i| g.changes[i] as u64 == s) {
                    g.low -= 1;
                    g.slots[me].prio = g.low;
                }
                highest(g, g.mask)
            }
        }
    };
    arm(g);
    if target != me {
        record(g, target as u32);
        fault_fired(F_PREEMPT);
        switch_to(me, target, kind, true);
    }
}

/// the running thread cannot (or should not) go on: pick somebody else
fn must_switch(me: usize, kind: u8, wait: bool) {
    let g = sim();
    g.step += 1;
    check_budget(g);
    let mut cand = g.mask & !(1u64 << me);
    let blocked = g.mask & (1 << me) == 0;
    if cand == 0 {
        if !blocked {
            return; // nobody else can run
        }
        cand = time_jump(g);
        if cand == 0 {
            end_process(ST_DEADLOCK);
        }
        if cand == 1 << me {
            g.mask |= cand;
            return;
        }
    }
    let default = cyclic(cand, me);
    let target = if g.explicit {
        match explicit_at(g) {
            Some(v) if v < MAXT as u32 && cand & (1 << v) != 0 => v as usize,
            Some(v) if v == me as u32 && !blocked => {
                record(g, v);
                arm(g);
                return;
            }
            _ => default,
        }
    } else {
        match g.policy {
            Policy::Lazy | Policy::RoundRobin { .. } => default,
            Policy::Walk { .. } => {
                let k = g.rng.below(cand.count_ones() as u64);
                nth_bit(cand, k)
            }
            Policy::Starve { victims, .. } => {
                let mut m = cand & !victims;
                if m == 0 && !blocked && victims & (1 << me) == 0 && g.rng.below(64) != 0 {
                    record(g, me as u32); // let it spin a little longer before a victim gets a slot
                    arm(g);
                    return;
                }
                if m == 0 || g.rng.below(256) == 0 {
                    m = cand;
                } else if cand & victims != 0 {
                    fault_fired(F_STARVE);
                }
                let k = g.rng.below(m.count_ones() as u64);
                nth_bit(m, k)
            }
            Policy::Pct { .. } => {
                if !blocked {
                    g.low -= 1;
                    g.slots[me].prio = g.low;
                }
                highest(g, cand)
            }
        }
    };
    if target != default {
        record(g, target as u32);
    }
    arm(g);
    switch_to(me, target, kind, wait);
}

/// nothing can run: move the simulated clock to the earliest deadline
fn time_jump(g: &mut Sim) -> u64 {
    let mut best: Option<usize> = None;
    for t in 0..g.nthreads {
        let s = &g.slots[t];
        if (s.st == St::Futex || s.st == St::Sleep)
            && s.deadline != u64::MAX
            && best.map_or(true, |b| s.deadline < g.slots[b].deadline)
        {
            best = Some(t);
        }
    }
    match best {
        None => 0,
        Some(t) => {
            g.now = g.now.max(g.slots[t].deadline);
            g.slots[t].timed_out = true;
            make_runnable(g, t);
            fault_fired(F_TIMEJUMP);
            1 << t
        }
    }
}

fn make_runnable(g: &mut Sim, t: usize) {
    g.slots[t].st = St::Runnable;
    g.slots[t].deadline = u64::MAX;
    g.mask |= 1 << t;
    let n = g.mask.count_ones() as u64;
    if let Some(s) = shm() {
        s.max_runnable = s.max_runnable.max(n);
    }
    if let Policy::Pct { .. } = g.policy {
        if !g.explicit {
            g.next_event = g.next_event.min(g.step + 1);
        }
    }
}

fn switch_to(me: usize, t: usize, kind: u8, wait: bool) {
    let g = sim();
    let s = unsafe { &mut *g.shm };
    s.switches += 1;
    s.note((g.step << 24) | ((kind as u64) << 16) | ((me as u64) << 8) | t as u64);
    let n = s.ntrace as usize;
    if n < MAX_TRACE {
        s.trace[n] = (g.step as u32, kind, me as u8, t as u8, 0);
        s.ntrace += 1;
    }
    unpark(&g.slots[t].word);
    if wait {
        park(&g.slots[me].word);
    }
}

#[inline(always)]
fn tick(me: usize, kind: u8) {
    let g = sim();
    g.step += 1;
    g.now += 50;
    if g.step >= g.next_event {
        preempt(me, kind);
    }
}

/// Shared memory is being touched (by linestring, or by generic code of its dependencies that was
/// instantiated for it), which is where threads get into each other's way: hand over more often.
#[cold]
fn shared_access(me: usize, kind: u8) {
    let g = sim();
    // a step of its own, so that a replay can tell this decision from the one before
    g.step += 1;
    if g.explicit {
        if g.step >= g.next_event {
            preempt(me, kind);
        }
        return;
    }
    let others = g.mask & !(1u64 << me);
    if others == 0 || g.step + 100_000 > g.budget || g.rng.below(1000) >= g.hot as u64 {
        return;
    }
    let k = g.rng.below(others.count_ones() as u64);
    let target = nth_bit(others, k);
    record(g, target as u32);
    fault_fired(F_PREEMPT);
    arm(g);
    switch_to(me, target, kind, true);
}

#[inline(never)]
pub fn yield_point(kind: u8) {
    if let Some(m) = me() {
        unsafe { (*sim().shm).kinds[kind as usize] += 1 };
        tick(m, kind);
        if (kind == K_ATOMIC || kind == K_STATIC) && sim().hot != 0 {
            shared_access(m, kind);
        }
    }
}

/// What is done with the value of an atomic may happen long after it was read (without another shared
/// access of code that is compiled from the repository in between: a condition variable is part of std).
#[inline(never)]
pub fn after_access() {
    if sched_hot() {
        if let Some(m) = me() {
            shared_access(m, K_ATOMIC);
        }
    }
}

#[inline(always)]
fn sched_hot() -> bool {
    sim().hot != 0
}

/// called by every operation of the simulated vector types
#[inline(never)]
pub fn vec_op() {
    if let Some(m) = me() {
        let g = sim();
        let s = unsafe { &mut *g.shm };
        s.vec_ops += 1;
        s.vec_mask |= 1 << m;
        if s.vec_ops == g.panic_at {
            g.panic_at = u64::MAX;
            s.faults[F_PANIC] += 1;
            s.note(0xBAD0 + m as u64);
            // every kind of payload
            match s.vec_ops % 3 {
                0 => std::panic::panic_any(INJECTED),
                1 => std::panic::panic_any(format!("{INJECTED}, at {}", s.vec_ops)),
                _ => std::panic::panic_any(InjectedPanic(s.vec_ops)),
            }
        }
        tick(m, K_VEC);
    }
}

pub struct InjectedPanic(#[allow(dead_code)] pub u64);
const INJECTED: &str = "a vector operation panics";

#[inline(never)]
pub fn is_injected(p: &(dyn std::any::Any + Send)) -> bool {
    p.is::<InjectedPanic>()
        || p.downcast_ref::<&str>().is_some_and(|s| *s == INJECTED)
        || p.downcast_ref::<String>().is_some_and(|s| s.starts_with(INJECTED))
}

fn decide_spurious(g: &mut Sim) -> bool {
    g.step += 1;
    let hit = if g.explicit {
        explicit_at(g) == Some(FAULT_VALUE)
    } else {
        g.spurious > 0 && g.frng.below(1000) < g.spurious as u64
    };
    if hit {
        record(g, FAULT_VALUE);
        fault_fired(F_SPURIOUS);
    }
    if g.explicit {
        arm(g);
    }
    hit
}

fn decide_pick(g: &mut Sim, n: u64) -> u64 {
    if n <= 1 {
        return 0;
    }
    g.step += 1;
    let k = if g.explicit {
        match explicit_at(g) {
            Some(v) if v >= PICK_VALUE => ((v - PICK_VALUE) as u64).min(n - 1),
            _ => 0,
        }
    } else if g.policy == Policy::Lazy {
        0
    } else {
        g.frng.below(n)
    };
    if k != 0 {
        record(g, PICK_VALUE + k as u32);
        fault_fired(F_WAKE_ORDER);
    }
    if g.explicit {
        arm(g);
    }
    k
}

unsafe fn futex(me: usize, addr: usize, op: c_int, val: u32, to: *const timespec, val3: u32) -> isize {
    let g = sim();
    let cmd = op & 0x7f;
    let s = &mut *g.shm;
    match cmd {
        0 | 9 => {
            s.kinds[K_FWAIT as usize] += 1;
            tick(me, K_FWAIT);
            if (*(addr as *const AtomicU32)).load(SeqCst) != val {
                return -(libc::EAGAIN as isize);
            }
            if decide_spurious(g) {
                return -(libc::EINTR as isize);
            }
            let deadline = if to.is_null() {
                u64::MAX
            } else {
                let ns = ((*to).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*to).tv_nsec as u64);
                if cmd == 0 {
                    g.now.saturating_add(ns)
                } else {
                    ns.saturating_sub(CLOCK_BASE)
                }
            };
            g.order += 1;
            let sl = &mut g.slots[me];
            sl.st = St::Futex;
            sl.addr = addr;
            sl.bitset = if cmd == 9 { val3 } else { u32::MAX };
            sl.deadline = deadline;
            sl.order = g.order;
            sl.timed_out = false;
            g.mask &= !(1u64 << me);
            must_switch(me, K_FWAIT, true);
            if sim().slots[me].timed_out {
                -(libc::ETIMEDOUT as isize)
            } else {
                0
            }
        }
        1 | 10 => {
            s.kinds[K_FWAKE as usize] += 1;
            let bits = if cmd == 10 { val3 } else { u32::MAX };
            let mut woken = 0;
            while (woken as i64) < (val as i32).max(0) as i64 {
                let mut list = [0usize; MAXT];
                let mut n = 0;
                for t in 0..g.nthreads {
                    let sl = &g.slots[t];
                    if sl.st == St::Futex && sl.addr == addr && sl.bitset & bits != 0 {
                        list[n] = t;
                        n += 1;
                    }
                }
                if n == 0 {
                    break;
                }
                list[..n].sort_unstable_by_key(|t| g.slots[*t].order);
                let k = decide_pick(g, n as u64);
                make_runnable(g, list[k as usize]);
                woken += 1;
            }
            tick(me, K_FWAKE);
            woken
        }
        _ => {
            in_hook(|| {
                s.set_msg(&format!("unsupported futex operation {op}"));
            });
            end_process(ST_HARNESS)
        }
    }
}

const CLOCK_BASE: u64 = 1_000_000_000_000;

// ------------------------------------------------------------------ interposed libc symbols

type CreateFn = unsafe extern "C" fn(
    *mut pthread_t,
    *const pthread_attr_t,
    extern "C" fn(*mut c_void) -> *mut c_void,
    *mut c_void,
) -> c_int;
type JoinFn = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;

struct Real {
    create: Option<CreateFn>,
    join: Option<JoinFn>,
    key: libc::pthread_key_t,
}
struct R(UnsafeCell<Real>);
unsafe impl Sync for R {}
static REAL: R = R(UnsafeCell::new(Real { create: None, join: None, key: 0 }));

#[inline(never)]
pub fn init() {
    unsafe {
        let r = &mut *REAL.0.get();
        let c = libc::dlsym(libc::RTLD_NEXT, b"pthread_create\0".as_ptr() as *const c_char);
        let j = libc::dlsym(libc::RTLD_NEXT, b"pthread_join\0".as_ptr() as *const c_char);
        assert!(!c.is_null() && !j.is_null());
        r.create = Some(std::mem::transmute::<*mut c_void, CreateFn>(c));
        r.join = Some(std::mem::transmute::<*mut c_void, JoinFn>(j));
        assert_eq!(0, libc::pthread_key_create(&mut r.key, Some(thread_end)));
    }
}

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    tid: usize,
}

static STARTS: [UnsafeStart; MAXT] = [const { UnsafeStart(UnsafeCell::new(None)) }; MAXT];
struct UnsafeStart(UnsafeCell<Option<Start>>);
unsafe impl Sync for UnsafeStart {}

extern "C" fn thread_main(p: *mut c_void) -> *mut c_void {
    let tid = p as usize;
    let st = unsafe { (*STARTS[tid].0.get()).take().unwrap() };
    park(&sim().slots[st.tid].word);
    TID.with(|t| t.set(tid as u32 + 1));
    unsafe {
        libc::pthread_setspecific((*REAL.0.get()).key, 3 as *const c_void);
    }
    (st.f)(st.arg)
}

/// runs after the thread's C++/Rust thread-local destructors; asks to be called again a few times
/// so that it is the last one
unsafe extern "C" fn thread_end(v: *mut c_void) {
    let n = v as usize;
    if n > 1 {
        libc::pthread_setspecific((*REAL.0.get()).key, (n - 1) as *const c_void);
        return;
    }
    let t = TID.with(|t| t.get());
    if t == 0 || !ACTIVE.load(Relaxed) {
        return;
    }
    let me = t as usize - 1;
    let g = sim();
    (*g.shm).kinds[K_EXIT as usize] += 1;
    g.slots[me].st = St::Done;
    g.mask &= !(1u64 << me);
    for j in 0..g.nthreads {
        if g.slots[j].st == St::Join && g.slots[j].join_on == me {
            make_runnable(g, j);
        }
    }
    TID.with(|t| t.set(0));
    EXITING.store(raw6(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as u32, Relaxed);
    must_switch(me, K_EXIT, false);
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    let real = (*REAL.0.get()).create.expect("pthread_create before init");
    let Some(m) = me() else {
        return real(th, attr, f, arg);
    };
    let g = sim();
    let tid = if g.nthreads < MAXT {
        g.nthreads
    } else {
        match (0..MAXT).find(|t| g.slots[*t].gone) {
            Some(t) => t,
            None => return libc::EAGAIN,
        }
    };
    *STARTS[tid].0.get() = Some(Start { f, arg, tid });
    let r = real(th, attr, thread_main, tid as *mut c_void);
    if r != 0 {
        in_hook(|| (*g.shm).set_msg(&format!("pthread_create failed: {r}")));
        end_process(ST_HARNESS);
    }
    g.nthreads = g.nthreads.max(tid + 1);
    g.slots[tid].gone = false;
    g.slots[tid].pth = *th;
    g.slots[tid].has_pth = true;
    g.slots[tid].prio = new_prio(g);
    make_runnable(g, tid);
    (*g.shm).kinds[K_CREATE as usize] += 1;
    (*g.shm).note(0xC0DE_0000 + tid as u64);
    tick(m, K_CREATE);
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: pthread_t, ret: *mut *mut c_void) -> c_int {
    let real = (*REAL.0.get()).join.expect("pthread_join before init");
    let Some(m) = me() else {
        return real(th, ret);
    };
    let g = sim();
    (*g.shm).kinds[K_JOIN as usize] += 1;
    tick(m, K_JOIN);
    // the newest thread with this handle (handles may be reused after a join)
    if let Some(t) = (0..g.nthreads).rev().find(|t| g.slots[*t].has_pth && g.slots[*t].pth == th) {
        if g.slots[t].st != St::Done {
            g.slots[m].st = St::Join;
            g.slots[m].join_on = t;
            g.mask &= !(1u64 << m);
            must_switch(m, K_JOIN, true);
        }
        sim().slots[t].has_pth = false;
        let r = real(th, ret);
        sim().slots[t].gone = true;
        return r;
    }
    real(th, ret)
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex {
        if let Some(m) = me() {
            let r = futex(m, a, b as c_int, c as u32, d as *const timespec, f as u32);
            return errno_ret(r) as c_long;
        }
    } else if n == libc::SYS_getrandom && crate::env::active() {
        return crate::env::fill(a as *mut u8, b) as c_long;
    }
    errno_ret(raw6(n, a, b, c, d, e, f)) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(m) = me() {
        let g = sim();
        (*g.shm).kinds[K_YIELD as usize] += 1;
        g.now += 1000;
        must_switch(m, K_YIELD, true);
        return 0;
    }
    errno_ret(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

unsafe fn sleep_ns(m: usize, ns: u64) {
    let g = sim();
    (*g.shm).kinds[K_SLEEP as usize] += 1;
    let sl = &mut g.slots[m];
    sl.st = St::Sleep;
    sl.deadline = g.now.saturating_add(ns);
    g.mask &= !(1u64 << m);
    must_switch(m, K_SLEEP, true);
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(m) = me() {
        sleep_ns(m, ((*req).tv_sec as u64).saturating_mul(1_000_000_000) + (*req).tv_nsec as u64);
        return 0;
    }
    errno_ret(raw6(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(m) = me() {
        let ns = ((*req).tv_sec as u64).saturating_mul(1_000_000_000) + (*req).tv_nsec as u64;
        let d = if flags & libc::TIMER_ABSTIME != 0 { ns.saturating_sub(CLOCK_BASE + sim().now) } else { ns };
        sleep_ns(m, d);
        return 0;
    }
    -(raw6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if ACTIVE.load(Relaxed) && TID.with(|t| t.get()) != 0 {
        yield_point(K_CLOCK);
        let (step, off) = crate::env::clock(clk == libc::CLOCK_REALTIME);
        sim().now = sim().now.saturating_add(step);
        let t = (CLOCK_BASE + sim().now).saturating_add_signed(off);
        (*ts).tv_sec = (t / 1_000_000_000) as i64;
        (*ts).tv_nsec = (t % 1_000_000_000) as i64;
        return 0;
    }
    errno_ret(raw6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, set: *mut u8) -> c_int {
    if me().is_some() {
        std::ptr::write_bytes(set, 0, size);
        for i in 0..(sim().ncpu as usize).min(size * 8) {
            *set.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = errno_ret(raw6(libc::SYS_sched_getaffinity, pid as usize, size, set as usize, 0, 0, 0));
    if r < 0 {
        return -1;
    }
    if (r as usize) < size {
        std::ptr::write_bytes(set.add(r as usize), 0, size - r as usize);
    }
    0
}
