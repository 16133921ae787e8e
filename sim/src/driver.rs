//! Drives one check: many simulated runs on several worker processes, minimisation and replay of the
//! first violation, evidence.
use crate::case::*;
use crate::exec::{exec, Outcome};
use crate::gen;
use crate::runner::*;
use crate::sched::{Policy, Sched, FAULT_NAMES, KIND_NAMES};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub detail: String,
    /// event log hash of the failing run; a replay has to reproduce it
    pub hash: u64,
    pub verif_seed: u64,
    pub found_at_case: u64,
    pub minimised: bool,
    pub trace: Vec<String>,
    pub case: Case,
}

pub fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.trim().parse::<u64>().ok()).unwrap_or(d)
}

pub fn workers() -> usize {
    let n = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.max(1) as usize;
    (env_u64("LSSIM_WORKERS", n.min(8) as u64) as usize).clamp(1, 64)
}

/// keep this process and the threads it simulates on one cpu (hand-overs are then cheap); purely a
/// matter of speed
pub fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if crate::sched::raw6(libc::SYS_sched_getaffinity, 0, std::mem::size_of_val(&set), &mut set as *mut _ as usize, 0, 0, 0) > 0 {
            let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
            if !cpus.is_empty() {
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpus[k % cpus.len()], &mut one);
                libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
            }
        }
    }
}

/// a run that only ran out of wall clock (another process hogging the machine?) is tried again
pub fn exec_retry(c: &Case, r: &mut Runner) -> Outcome {
    let o = exec(c, r);
    match &o.viol {
        Some(v) if v.class.ends_with("stall") || v.class.ends_with("hang") => exec(c, r),
        _ => o,
    }
}

struct Plan {
    cases: u64,
    wall: u64,
}

fn plan(prop: &str, thorough: bool) -> Plan {
    // sized for about a minute (quick) and ten minutes (thorough) on 8 cores
    let q = match prop {
        "C01" => 200_000,
        "C02" => 200_000,
        "C03" => 200_000,
        "C04" => 70_000,
        "C05" => 32_000,
        "C06" => 25_000,
        "C07" => 120_000,
        "C08" => 120_000,
        "C09" => 120_000,
        "C10" => 70_000,
        "C12" => 45_000,
        "C13" => 35_000,
        "C14" => 6_000,
        _ => 150_000,
    };
    let q = env_u64("LSSIM_CASES", q);
    if thorough {
        Plan { cases: q * 12, wall: env_u64("LSSIM_WALL", 700) }
    } else {
        Plan { cases: q, wall: env_u64("LSSIM_WALL", 240) }
    }
}

#[repr(C)]
struct Ctl {
    min_fail: AtomicU64,
    stop: AtomicU64,
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    stats: Stats,
    cases: u64,
    nontrivial: u64,
    fail: Option<(u64, String, String)>,
    harness: Option<String>,
    timed_out: bool,
    samples: Vec<String>,
    max_steps: u64,
    hashes: Vec<u64>,
    repeated: u64,
    repeat_differs: Vec<u64>,
}

/// is this a case in which the property could have been broken by a schedule or a fault?
fn nontrivial(before: &Stats, after: &Stats) -> bool {
    after.switches > before.switches + 1 || after.faults.iter().sum::<u64>() > before.faults.iter().sum::<u64>()
}

fn worker(k: usize, n: usize, prop: &str, seed: u64, p: &Plan, ctl: &Ctl, t0: Instant) -> WorkerOut {
    pin(k);
    let mut r = Runner::new();
    let mut out = WorkerOut::default();
    let mut idx = k as u64;
    while idx < p.cases {
        if ctl.min_fail.load(SeqCst) < idx || ctl.stop.load(SeqCst) != 0 {
            break;
        }
        if t0.elapsed() > Duration::from_secs(p.wall) {
            out.timed_out = true;
            break;
        }
        let c = gen::gen(prop, seed, idx);
        let before = r.stats.clone();
        let o = exec_retry(&c, &mut r);
        out.cases += 1;
        out.nontrivial += nontrivial(&before, &r.stats) as u64;
        out.max_steps = out.max_steps.max(r.stats.steps - before.steps);
        out.hashes.push(o.hash);
        if let Some(e) = r.harness_error.take() {
            out.harness = Some(format!("case {idx}: {e}"));
            ctl.stop.store(1, SeqCst);
            break;
        }
        if out.samples.len() < 1 && idx >= 8 {
            let mut t = serde_json::to_string(&c).unwrap();
            if t.len() > 1500 {
                let mut cut = 1500;
                while !t.is_char_boundary(cut) {
                    cut -= 1;
                }
                t.truncate(cut);
                t.push_str("...");
            }
            out.samples.push(format!("{t} => {}", if o.viol.is_some() { "violation" } else { "held" }));
        }
        if o.viol.is_none() && (idx / n as u64) % 101 == 50 {
            // the same case again: the same events?
            let keep = r.stats.clone();
            let again = exec_retry(&c, &mut r);
            r.stats = keep;
            r.harness_error = None;
            out.repeated += 1;
            if again.hash != o.hash {
                out.repeat_differs.push(idx);
            }
        }
        if let Some(v) = o.viol {
            ctl.min_fail.fetch_min(idx, SeqCst);
            out.fail = Some((idx, v.class, v.detail));
            break;
        }
        idx += n as u64;
    }
    out.stats = r.stats;
    out
}

fn run_workers(prop: &str, seed: u64, p: &Plan) -> Vec<WorkerOut> {
    let n = workers();
    let t0 = Instant::now();
    let ctl: &'static Ctl = unsafe {
        let q = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(q != libc::MAP_FAILED);
        &*(q as *const Ctl)
    };
    ctl.min_fail.store(u64::MAX, SeqCst);
    let mut pipes = vec![];
    for k in 0..n {
        let mut fds = [0i32; 2];
        assert_eq!(0, unsafe { libc::pipe(fds.as_mut_ptr()) });
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            let o = worker(k, n, prop, seed, p, ctl, t0);
            let t = serde_json::to_vec(&o).unwrap();
            let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
            let _ = f.write_all(&t);
            drop(f);
            unsafe { libc::_exit(0) }
        }
        unsafe { libc::close(fds[1]) };
        pipes.push((pid, fds[0]));
    }
    let mut outs = vec![];
    for (pid, fd) in pipes {
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let mut t = vec![];
        let _ = f.read_to_end(&mut t);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        outs.push(serde_json::from_slice(&t).unwrap_or_else(|_| WorkerOut {
            harness: Some(format!("a worker process ended early (status {st})")),
            ..Default::default()
        }));
    }
    outs
}

fn fails(c: &Case, r: &mut Runner, class: &str) -> Option<Outcome> {
    let o = exec_retry(c, r);
    r.harness_error = None;
    match &o.viol {
        Some(v) if v.class == class => Some(o),
        _ => None,
    }
}

fn explicit(c: &Case, devs: Vec<(u32, u32)>) -> Case {
    Case { sched: Sched { explicit: Some(devs), ..c.sched.clone() }, ..c.clone() }
}

/// smaller workload, simpler schedule, fewer deviations from the default schedule
pub fn minimise(case: &Case, class: &str, r: &mut Runner, wall: Duration) -> (Case, Outcome) {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut best_o = exec_retry(&best, r);
    r.harness_error = None;
    let slow = matches!(class, "hang" | "stall");
    // environment
    for (h, f) in [(1u64, 0u32), (best.hash_seed, 0)] {
        let c = Case { hash_seed: h, fill: f, ..best.clone() };
        if let Some(o) = fails(&c, r, class) {
            best = c;
            best_o = o;
            break;
        }
    }
    // workload, each candidate under a few schedules
    'outer: loop {
        if t0.elapsed() > wall || slow && t0.elapsed() > wall / 2 {
            break;
        }
        for w in gen::shrink(&best.work) {
            if t0.elapsed() > wall {
                break 'outer;
            }
            let tries = if slow { 1 } else { 4 };
            for k in 0..tries {
                let sched = match k {
                    0 => Sched { policy: Policy::Lazy, spurious: 0, ..best.sched.clone() },
                    1 => best.sched.clone(),
                    k => Sched { policy: best.sched.policy.clone(), seed: case.sched.seed.wrapping_add(k), ..case.sched.clone() },
                };
                let c = Case { work: w.clone(), sched, ..best.clone() };
                if let Some(o) = fails(&c, r, class) {
                    best = c;
                    best_o = o;
                    continue 'outer;
                }
            }
        }
        break;
    }
    // the schedule: record it, then remove deviations
    if !best_o.dev_overflow {
        let mut devs = best_o.devs.clone();
        let c = explicit(&best, devs.clone());
        if let Some(o) = fails(&c, r, class) {
            best = c;
            best_o = o;
            let wall = t0.elapsed() + wall / 2;
            let mut k = devs.len();
            while k > 0 && t0.elapsed() < wall {
                let mut i = 0;
                let mut any = false;
                while i < devs.len() && t0.elapsed() < wall {
                    let e = (i + k).min(devs.len());
                    let mut t = devs[..i].to_vec();
                    t.extend_from_slice(&devs[e..]);
                    let c = explicit(&best, t.clone());
                    if let Some(o) = fails(&c, r, class) {
                        devs = t;
                        best = c;
                        best_o = o;
                        any = true;
                    } else {
                        i = e;
                    }
                }
                if k == 1 && !any {
                    break;
                }
                k = if k > 1 { k / 2 } else { 1 };
            }
        }
    }
    // final: the run as it will be replayed
    let o = exec_retry(&best, r);
    r.harness_error = None;
    if o.viol.as_ref().is_some_and(|v| v.class == class) {
        best_o = o;
    }
    (best, best_o)
}

fn verif_dir() -> String {
    std::env::var("LSSIM_VERIF").unwrap_or_else(|_| "/verif".to_string())
}

struct Known {
    property: String,
    text: String,
    key: String,
}

/// `known: property=<id> key=<class and input digest> <text>`; `fixed:` lines suppress nothing
fn known_findings() -> Vec<Known> {
    let t = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let (k, text) = rest.strip_prefix("key=")?.split_once(' ')?;
            Some(Known { property: p.into(), text: text.into(), key: k.into() })
        })
        .collect()
}

pub fn check(prop: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let seed = env_u64("VERIF_SEED", 1);
    println!("property {prop}, VERIF_SEED={seed}, tier {}", if thorough { "thorough" } else { "quick" });
    for k in known_findings() {
        if k.property == prop {
            println!("KNOWN-FINDING: property={prop} {} [{}]", k.text, k.key);
        }
    }
    let p = plan(prop, thorough);
    let outs = run_workers(prop, seed, &p);
    let mut stats = Stats::default();
    let mut hashes: Vec<u64> = vec![];
    let (mut cases, mut nontriv, mut timed_out, mut max_steps) = (0u64, 0u64, false, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut fail: Option<(u64, String, String)> = None;
    let mut harness = None;
    let (mut repeated, mut differs) = (0u64, vec![]);
    for o in outs {
        stats.add(&o.stats);
        cases += o.cases;
        nontriv += o.nontrivial;
        timed_out |= o.timed_out;
        max_steps = max_steps.max(o.max_steps);
        hashes.extend(o.hashes);
        repeated += o.repeated;
        differs.extend(o.repeat_differs);
        if samples.len() < 3 {
            samples.extend(o.samples);
        }
        if let Some(f) = o.fail {
            if fail.as_ref().map_or(true, |g| f.0 < g.0) {
                fail = Some(f);
            }
        }
        if o.harness.is_some() {
            harness = o.harness;
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    let search_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violation = json!(null);
    if let (Some(h), None) = (&harness, &fail) {
        eprintln!("harness error: {h}");
        return 2;
    }
    if let Some((idx, class, detail)) = &fail {
        println!("case {idx} violates {prop}: {class}: {detail}");
        let _ = std::io::stdout().flush();
        pin(0);
        let mut r = Runner::new();
        r.want_trace = true;
        let case = gen::gen(prop, seed, *idx);
        let (c, o) = minimise(&case, class, &mut r, Duration::from_secs(if thorough { 120 } else { 60 }));
        let mut file = Replay {
            property: prop.to_string(),
            class: class.clone(),
            detail: o.viol.as_ref().map_or(detail.clone(), |v| v.detail.clone()),
            hash: o.hash,
            verif_seed: seed,
            found_at_case: *idx,
            minimised: o.viol.is_some(),
            trace: o.trace.clone(),
            case: c,
        };
        if o.viol.is_none() {
            // not reproducible in this process: report the original case as it was found
            file.case = case;
        }
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed}-{idx}.json");
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).expect("write the replay file");
        // replay in a fresh process
        let exe = std::env::current_exe().unwrap();
        let out = std::process::Command::new(exe).arg("replay").arg(&path).output();
        let ok = out.as_ref().is_ok_and(|o| o.status.code() == Some(1));
        println!("replay in a fresh process: {}", if ok { "reproduced" } else { "NOT reproduced" });
        println!("minimised: {}: {}", file.class, file.detail);
        println!("VIOLATION property={prop} replay={path}");
        violation = json!({"case": idx, "class": class, "replay": path, "replayed_in_fresh_process": ok});
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let named = |names: &[&str], v: &[u64]| -> serde_json::Value {
        let mut m = serde_json::Map::new();
        for (i, n) in names.iter().enumerate() {
            if v.get(i).copied().unwrap_or(0) > 0 {
                m.insert(n.to_string(), json!(v[i]));
            }
        }
        json!(m)
    };
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": hashes.len().min(nontriv as usize),
            "rule": format!("case i is generated from (VERIF_SEED, property, i); {}. Non-trivial: at least one switch between threads or one injected fault happened in it. Distinct: different hash over the event log (every switch with its step, kind and threads; every file system call; every injected panic) of all simulated processes of the case.", about(prop)),
            "samples": samples,
            "simulated_processes": stats.processes,
            "runs_per_hour": (cases as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": (cases as f64 / search_s * 3600.0) as u64,
            "simulated_seconds": stats.sim_ns as f64 / 1e9,
            "scheduler_steps": stats.steps,
            "max_steps_in_one_case": max_steps,
            "thread_switches": stats.switches,
            "distinct_event_logs": hashes.len(),
            "vector_operations": stats.vec_ops,
            "runs_with_vector_operations_on_2_or_more_threads": stats.multi_worker_runs,
            "threads_simulated": stats.threads_total,
            "most_threads_in_one_run": stats.max_threads,
            "yield_points_by_kind": named(&KIND_NAMES, &stats.kinds),
            "faults_fired": named(&FAULT_NAMES, &stats.faults),
            "processes_in_which_the_fault_fired": named(&FAULT_NAMES, &stats.fault_runs),
            "probes": stats.probes,
            "stopped_by_the_clock": timed_out,
            "cases_run_twice": repeated,
            "cases_run_twice_with_different_event_logs": differs,
            "real_components": ["linestring (all of it, built from /repo's working tree)", "rayon and rayon-core, crossbeam (work stealing, sleeping, latches)", "std (Mutex, Condvar, Once, thread, File, BufWriter)", "glibc below the interposed symbols"],
            "simulated_components": ["thread scheduling (one thread runs at a time, the seeded policy decides who)", "futex, thread creation/join/exit, sched_yield, sleeps, clock", "random bytes (hash seeds)", "heap contents", "the file system below /simfs", "vector types SimVec2/SimVec3 (yield points, injected panics); glam and cgmath types are used too"],
            "violation": violation,
        },
        "assumptions": [
            "interleavings are explored at vector operations, allocations, atomic operations and accesses to statics in code compiled from the repository, futex calls, yields, thread start/exit and file system calls; code between two such points runs without interruption",
            "sequentially consistent memory: weak memory reorderings are not simulated",
            "sampling: a clean batch is evidence, not proof"
        ],
        "wall_s": wall,
        "violations": (code == 1) as i64,
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write the evidence: {e}");
        return 2;
    }
    if !differs.is_empty() {
        println!("not repeatable: cases {differs:?}");
    }
    println!(
        "{cases} cases, {} simulated processes, {} distinct event logs, {} steps, {:.1} s{}",
        stats.processes,
        hashes.len(),
        stats.steps,
        wall,
        if timed_out { " (stopped by the clock)" } else { "" }
    );
    code
}

fn about(p: &str) -> &'static str {
    match p {
        "C01" | "C11" => "point set style, size, selection, chunk size, vector type, pool arrangement, thread count, schedule policy, spurious wake-ups, hash seed and heap pattern are drawn per case",
        "C02" => "a strictly convex integer polygon, points inside, on the boundary and outside of it, pool arrangement, thread count and schedule are drawn per case",
        "C03" => "a hull case with one to four non-finite components at selected (or only at unselected) vertices, several calls on the same pool",
        "C04" => "a hull or containment case in which the n-th vector operation panics, or an index is out of range, other callers on the same pool, several rounds",
        "C05" => "two to four callers with one to four public operations each; reference: each operation alone in a fresh process",
        "C06" => "twenty to sixty public operations, executed in four environments (hash seed, heap contents, heap layout, preceding operations, cpu count, thread)",
        "C07" => "a set of line strings saved through short and interrupted writes over existing content",
        "C08" => "a save during which a file system call fails, the disk fills up, or the path is unusable; then a retry",
        "C09" => "a save during which the process is killed before, after or in the middle of a file system call; then a restart on the surviving files",
        "C12" => "one to four iterators, builders, accumulators or calls with caller's code in them, advanced in an interleaved order by up to four callers, some dropped half way, some with a nested library call or a panic inside",
        "C13" => "one to five kinds of calls repeated for 64 rounds on one pool (same or new data, worker panics, bad input, failing file system calls, objects dropped half way); what every round leaves in memory, threads and descriptors is counted when nothing else can run",
        "C14" => "one or two public operations on up to 12000 points of a shape that is awkward for recursion, called on a thread (or in a pool) with 64 to 256 KiB of stack; the most memory in use during the call is measured",
        _ => "two to five concurrent callers saving to files of their own, some with faults",
    }
}

pub fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let f: Replay = match serde_json::from_str(&t) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    pin(0);
    let mut r = Runner::new();
    r.want_trace = true;
    let o = exec_retry(&f.case, &mut r);
    if let Some(e) = r.harness_error {
        eprintln!("harness error: {e}");
        return 2;
    }
    for l in &o.trace {
        println!("{l}");
    }
    match o.viol {
        None => {
            println!("property {} holds on this run", f.property);
            0
        }
        Some(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("event log hash {:x}, recorded {:x}", o.hash, f.hash);
            println!("VIOLATION property={} replay={path}", f.property);
            if v.class == f.class {
                1
            } else {
                3
            }
        }
    }
}

/// run `n` cases of every property once and print the hash of every event log (to be diffed between
/// processes, worker counts and cpus)
pub fn hashes(n: u64, seed: u64) -> i32 {
    let props: Vec<String> = match std::env::var("LSSIM_PROP") {
        Ok(p) => vec![p],
        _ => gen::PROPS.iter().map(|s| s.to_string()).collect(),
    };
    let w = workers();
    for p in &props {
        let mut pipes = vec![];
        for k in 0..w {
            let mut fds = [0i32; 2];
            assert_eq!(0, unsafe { libc::pipe(fds.as_mut_ptr()) });
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                if env_u64("LSSIM_PIN", 1) == 1 {
                    pin(k);
                }
                let mut r = Runner::new();
                let mut t = String::new();
                let mut i = k as u64;
                while i < n {
                    let c = gen::gen(p, seed, i);
                    let o = exec(&c, &mut r);
                    t.push_str(&format!("{p} {i} {:016x} {} {}\n", o.hash, o.devs.len(), o.viol.map_or("held".into(), |v| v.class)));
                    if let Some(e) = r.harness_error.take() {
                        t.push_str(&format!("{p} {i} harness {e}\n"));
                    }
                    i += w as u64;
                }
                let mut f = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                let _ = f.write_all(t.as_bytes());
                drop(f);
                unsafe { libc::_exit(0) }
            }
            unsafe { libc::close(fds[1]) };
            pipes.push((pid, fds[0]));
        }
        let mut lines: Vec<String> = vec![];
        for (pid, fd) in pipes {
            let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
            let mut t = String::new();
            let _ = f.read_to_string(&mut t);
            unsafe { libc::waitpid(pid, std::ptr::null_mut(), 0) };
            lines.extend(t.lines().map(|s| s.to_string()));
        }
        lines.sort_by_key(|l| l.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0));
        for l in lines {
            println!("{l}");
        }
    }
    0
}

pub fn one(prop: &str, seed: u64, idx: u64) -> i32 {
    pin(0);
    let mut r = Runner::new();
    r.want_trace = true;
    let c = gen::gen(prop, seed, idx);
    println!("{}", serde_json::to_string(&c).unwrap());
    let o = exec(&c, &mut r);
    println!("{:?} hash {:x} devs {} steps {} harness {:?}", o.viol, o.hash, o.devs.len(), r.stats.steps, r.harness_error);
    if std::env::var_os("LSSIM_TRACE").is_some() {
        o.trace.iter().for_each(|l| println!("{l}"));
    }
    o.viol.is_some() as i32
}
