//! Runs one simulated process: forks, installs environment, scheduler and file system, executes the
//! body, collects what happened.
use crate::disk;
use crate::env;
use crate::sched::{self, Sched};
use crate::shm::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

pub fn viol(class: &str, detail: impl Into<String>) -> Option<Viol> {
    Some(Viol { class: class.to_string(), detail: detail.into() })
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Body {
    pub viol: Option<Viol>,
    #[serde(default)]
    pub out: Vec<Vec<u64>>,
    #[serde(default)]
    pub text: Vec<String>,
    #[serde(default)]
    pub probes: Vec<(String, u64)>,
}

impl Body {
    pub fn probe(&mut self, name: &str, n: u64) {
        if n > 0 {
            self.probes.push((name.to_string(), n));
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Done,
    Deadlock,
    Budget,
    Crashed,
    Hang,
    Signal(i32),
    Stall,
}

pub struct ChildRes {
    pub end: End,
    pub body: Body,
    pub devs: Vec<(u32, u32)>,
    pub dev_overflow: bool,
    pub hash: u64,
    pub steps: u64,
    pub vec_ops: u64,
    pub image: Option<String>,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub processes: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub switches: u64,
    pub vec_ops: u64,
    pub kinds: Vec<u64>,
    pub faults: Vec<u64>,
    pub fault_runs: Vec<u64>,
    pub multi_worker_runs: u64,
    pub max_threads: u64,
    pub threads_total: u64,
    pub probes: BTreeMap<String, u64>,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.processes += o.processes;
        self.steps += o.steps;
        self.sim_ns += o.sim_ns;
        self.switches += o.switches;
        self.vec_ops += o.vec_ops;
        self.multi_worker_runs += o.multi_worker_runs;
        self.threads_total += o.threads_total;
        self.max_threads = self.max_threads.max(o.max_threads);
        let addv = |a: &mut Vec<u64>, b: &Vec<u64>| {
            if a.len() < b.len() {
                a.resize(b.len(), 0);
            }
            for (x, y) in a.iter_mut().zip(b) {
                *x += *y;
            }
        };
        addv(&mut self.kinds, &o.kinds);
        addv(&mut self.faults, &o.faults);
        addv(&mut self.fault_runs, &o.fault_runs);
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_default() += v;
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Env {
    pub hash_seed: u64,
    pub fill: u32,
}

pub struct Runner {
    pub shm: &'static mut Shm,
    fd: i32,
    pub stats: Stats,
    pub harness_error: Option<String>,
    pub cpu_limit: u64,
    pub want_trace: bool,
    pub keep_stderr: bool,
}

pub const STALL_S: u32 = 150;

struct PanicMsg(std::cell::UnsafeCell<[u8; 400]>, std::cell::UnsafeCell<usize>);
unsafe impl Sync for PanicMsg {}
static LAST_PANIC: PanicMsg = PanicMsg(std::cell::UnsafeCell::new([0; 400]), std::cell::UnsafeCell::new(0));

pub fn last_panic() -> String {
    unsafe { String::from_utf8_lossy(&(&*LAST_PANIC.0.get())[..*LAST_PANIC.1.get()]).into_owned() }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        sched::in_hook(|| {
            let s = format!("{info}").replace('\n', " ");
            if std::env::var_os("LSSIM_STDERR").is_some() {
                eprintln!("panic: {s}");
            }
            unsafe {
                let n = s.len().min(400);
                (&mut *LAST_PANIC.0.get())[..n].copy_from_slice(&s.as_bytes()[..n]);
                *LAST_PANIC.1.get() = n;
            }
        })
    }));
}

/// what one call to the library did
pub enum Call<T> {
    Ret(T),
    Injected,
    Panic(String),
}

pub fn call<T>(f: impl FnOnce() -> T) -> Call<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Call::Ret(v),
        Err(p) => {
            if sched::is_injected(&*p) {
                Call::Injected
            } else if let Some(s) = p.downcast_ref::<String>() {
                Call::Panic(s.clone())
            } else if let Some(s) = p.downcast_ref::<&str>() {
                Call::Panic(s.to_string())
            } else {
                Call::Panic("panic with another payload".to_string())
            }
        }
    }
}

/// Runs the program again at other addresses. Comes back only if that is impossible.
fn replace_image(s: &mut Shm, fd: i32, text: &str, layout: u64) {
    use std::ffi::CString;
    if text.len() > MAX_MSG || fd < 0 {
        return;
    }
    s.set_msg(text);
    let c = |t: String| CString::new(t).unwrap();
    let Ok(exe) = std::env::current_exe() else { return };
    let exe = exe.to_string_lossy().into_owned();
    // a program started through the loader lies among the libraries
    let loader = layout & 1 == 0 && std::path::Path::new(LOADER).exists();
    let mut args = vec![c(exe.clone()), c("inner".into()), c(fd.to_string())];
    if loader {
        args.insert(0, c(LOADER.into()));
    }
    // the stack begins below the environment
    let env = [c(format!("LSSIM_PAD={}", "x".repeat((layout >> 1) as usize % 5000)))];
    let ptrs = |v: &[CString]| v.iter().map(|s| s.as_ptr()).chain([std::ptr::null()]).collect::<Vec<_>>();
    unsafe {
        libc::personality(libc::ADDR_NO_RANDOMIZE as _);
        let path = c(if loader { LOADER.into() } else { exe });
        libc::execve(path.as_ptr(), ptrs(&args).as_ptr(), ptrs(&env).as_ptr());
    }
}

const LOADER: &str = "/lib64/ld-linux-x86-64.so.2";

/// the simulated process
pub fn run_body(shm_ptr: *mut Shm, sch: &Sched, e: Env, body: impl FnOnce() -> Body) -> ! {
    env::set_seed(e.hash_seed);
    env::set_fill(e.fill);
    disk::mount();
    sched::start(sch, shm_ptr);
    if e.fill != 0 {
        sched::fault_fired(sched::F_JUNK);
    }
    let b = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)) {
        Ok(b) => b,
        Err(_) => {
            Body { viol: viol("unexpected-panic", last_panic()), ..Default::default() }
        }
    };
    sched::stop();
    env::set_fill(0);
    let s = unsafe { &mut *shm_ptr };
    let t = serde_json::to_string(&b).unwrap();
    if t.len() > MAX_MSG {
        s.status = ST_HARNESS;
        s.set_msg("result too long");
    } else {
        s.set_msg(&t);
        s.status = ST_DONE;
    }
    unsafe { libc::_exit(0) }
}

impl Runner {
    pub fn new() -> Runner {
        let (shm, fd) = Shm::new();
        Runner {
            shm,
            fd,
            stats: Stats {
                kinds: vec![0; NKIND],
                faults: vec![0; NFAULT],
                fault_runs: vec![0; NFAULT],
                ..Default::default()
            },
            harness_error: None,
            cpu_limit: 20,
            want_trace: false,
            keep_stderr: std::env::var_os("LSSIM_STDERR").is_some(),
        }
    }

    /// With `image`, the process first replaces its program image: the same program again, but all of its
    /// code, statics, stack and heap at other addresses. It calls `crate::exec::inner` with that text,
    /// which ends in `run_body`.
    pub fn child(&mut self, sch: &Sched, e: Env, image: Option<(String, u64)>, body: impl FnOnce() -> Body) -> ChildRes {
        self.shm.reset();
        let shm_ptr: *mut Shm = self.shm;
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            unsafe {
                let lim = libc::rlimit { rlim_cur: self.cpu_limit, rlim_max: self.cpu_limit + 2 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                libc::alarm(STALL_S);
                if !self.keep_stderr {
                    let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
                    libc::dup2(null, 2);
                }
            }
            if let Some((text, layout)) = image {
                replace_image(unsafe { &mut *shm_ptr }, self.fd, &text, layout);
            }
            run_body(shm_ptr, sch, e, body)
        }
        let mut st: libc::c_int = 0;
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, 0) };
            if r == pid {
                break;
            }
            let e = std::io::Error::last_os_error();
            if e.raw_os_error() != Some(libc::EINTR) {
                panic!("waitpid: {e}");
            }
        }
        let s = &mut *self.shm;
        let mut body = Body::default();
        let end = if libc::WIFSIGNALED(st) {
            match libc::WTERMSIG(st) {
                libc::SIGXCPU => End::Hang,
                libc::SIGALRM => End::Stall,
                libc::SIGKILL => {
                    // out of cpu (hard limit) or ended from outside
                    self.harness_error = Some("a simulated process was killed".to_string());
                    End::Signal(libc::SIGKILL)
                }
                x => End::Signal(x),
            }
        } else {
            match s.status {
                ST_DONE => {
                    body = serde_json::from_str(&s.message()).expect("child result");
                    End::Done
                }
                ST_DEADLOCK => End::Deadlock,
                ST_BUDGET => End::Budget,
                ST_CRASHED => End::Crashed,
                _ => {
                    self.harness_error =
                        Some(format!("simulated process ended with status {} {}: {}", s.status, st, s.message()));
                    End::Signal(0)
                }
            }
        };
        let t = &mut self.stats;
        t.processes += 1;
        t.steps += s.steps;
        t.sim_ns += s.sim_ns;
        t.switches += s.switches;
        t.vec_ops += s.vec_ops;
        t.threads_total += s.threads as u64;
        t.max_threads = t.max_threads.max(s.threads as u64);
        if s.vec_mask.count_ones() >= 2 {
            t.multi_worker_runs += 1;
        }
        for i in 0..NKIND {
            t.kinds[i] += s.kinds[i];
        }
        for i in 0..NFAULT {
            t.faults[i] += s.faults[i];
            if s.faults[i] > 0 {
                t.fault_runs[i] += 1;
            }
        }
        for (k, v) in &body.probes {
            *t.probes.entry(k.clone()).or_default() += v;
        }
        let trace = if self.want_trace {
            s.trace[..s.ntrace as usize]
                .iter()
                .map(|x| format!("step {}: thread {} -> thread {} at {}", x.0, x.2, x.3, sched::KIND_NAMES[x.1 as usize]))
                .collect()
        } else {
            vec![]
        };
        ChildRes {
            end,
            body,
            devs: s.dev[..s.ndev as usize].to_vec(),
            dev_overflow: s.dev_overflow != 0,
            hash: s.hash,
            steps: s.steps,
            vec_ops: s.vec_ops,
            image: if s.img_len > 0 {
                Some(String::from_utf8_lossy(&s.img[..s.img_len as usize]).into_owned())
            } else {
                None
            },
            trace,
        }
    }
}

/// a violation if the process did not end the way it should
pub fn end_violation(r: &ChildRes) -> Option<Viol> {
    match r.end {
        End::Done => r.body.viol.clone(),
        End::Deadlock => viol("deadlock", "no thread of the process can make progress"),
        End::Budget => viol("no-progress", format!("not finished after {} scheduler steps", r.steps)),
        End::Hang => viol("hang", "the process used up its cpu time without finishing"),
        End::Stall => viol("stall", "the process neither finished nor used its cpu time"),
        End::Signal(s) => viol("crash", format!("the process died from signal {s}")),
        End::Crashed => None,
    }
}
