//! In-memory file system for every path below `/simfs`, with fault injection.  libc's file calls
//! are interposed; std's File, OpenOptions, BufWriter and fs functions on top of them are real.
//! Temporary directories are simulated too (as another file system), relative paths are resolved
//! against a simulated working directory.  Every other path goes to the real kernel.
use crate::sched::{self, errno_ret, fault_fired, in_hook, raw6, yield_point, K_FS};
use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};
use std::cell::UnsafeCell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, Ordering::*};

const FD0: c_int = 700_000;
pub const ROOT: &str = "/simfs";
/// another simulated file system: renames across the border fail
const TMP: &[&str] = &["/tmp", "/var/tmp", "/dev/shm"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// the call fails with this errno
    Errno(i32),
    /// this and every later call fails with this errno until the faults are cleared
    Sticky(i32),
    /// a write transfers at most this many bytes
    Short(u32),
    /// a write returns 0
    Zero,
    /// the process is killed immediately before the call
    CrashBefore,
    /// the process is killed immediately after the call
    CrashAfter,
    /// the process is killed when this many bytes of the write have reached the file
    Torn(u32),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    /// (number of the file system call, counted from arming the plan), sorted
    pub at: Vec<(u32, Fault)>,
    /// every write transfers at most this many bytes
    #[serde(default)]
    pub max_write: Option<u32>,
    /// every n-th call that may be interrupted is
    #[serde(default)]
    pub eintr_every: Option<u32>,
    /// bytes the disk still has room for
    #[serde(default)]
    pub room: Option<u32>,
    /// opening for writing fails with this errno
    #[serde(default)]
    pub open_errno: Option<i32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FileImg {
    pub path: String,
    pub data: String, // latin-1
}

#[derive(Clone)]
struct File {
    data: Vec<u8>,
    mode: u32,
}

#[derive(Clone)]
struct Fd {
    /// DIR for an open directory
    file: usize,
    /// which of `Fs::pos` (shared by duplicated descriptors)
    pos: usize,
    append: bool,
    write: bool,
    read: bool,
}

const DIR: usize = usize::MAX;

#[derive(Clone, Debug)]
pub struct Op {
    pub what: &'static str,
    pub path: String,
    pub arg: i64,
    pub ret: i64,
    pub tid: usize,
}

struct Fs {
    files: Vec<File>,
    names: Vec<(String, usize)>,
    pos: Vec<usize>,
    cwd: String,
    dirs: Vec<String>,
    fds: Vec<Option<Fd>>,
    n: u32,
    plan: Plan,
    sticky: Option<i32>,
    room: Option<u64>,
    used_since: u64,
    log: Vec<Op>,
    watch: Option<Watch>,
    /// file and offset of the last write that took bytes, until it is noted
    wrote: Option<(usize, usize)>,
    eintr_count: u32,
    injected: Vec<i32>,
}

struct Watch {
    path: String,
    old: Option<Vec<u8>>,
    full: Vec<u8>,
    bad: Option<String>,
    checked: u64,
    /// the file, and how many bytes of it are known to be the beginning of the new file
    known: Option<(usize, usize)>,
}

struct C(UnsafeCell<Option<Fs>>);
unsafe impl Sync for C {}
static FS: C = C(UnsafeCell::new(None));
static ON: AtomicBool = AtomicBool::new(false);

fn fs() -> &'static mut Fs {
    unsafe { (*FS.0.get()).get_or_insert_with(new_fs) }
}

fn new_fs() -> Fs {
    Fs {
        files: vec![],
        names: vec![],
        pos: vec![],
        cwd: ROOT.to_string(),
        dirs: std::iter::once(&ROOT).chain(TMP).map(|s| s.to_string()).collect(),
        fds: vec![],
        n: 0,
        plan: Plan::default(),
        sticky: None,
        room: None,
        used_since: 0,
        log: vec![],
        watch: None,
        wrote: None,
        eintr_count: 0,
        injected: vec![],
    }
}

// ------------------------------------------------------------------ harness interface

#[inline(never)]
pub fn mount() {
    in_hook(|| unsafe { *FS.0.get() = Some(new_fs()) });
    ON.store(true, SeqCst);
}

#[inline(never)]
pub fn mkdir_sim(p: &str) {
    in_hook(|| {
        let p = abs(p);
        if !is_dir(&p) {
            fs().dirs.push(p)
        }
    });
}

/// the absolute path of `p`, seen from the directory a simulated process starts in
#[inline(never)]
pub fn abs(p: &str) -> String {
    in_hook(|| norm(&if p.starts_with('/') { p.to_string() } else { format!("{ROOT}/{p}") }))
}

#[inline(never)]
pub fn put(path: &str, data: &[u8]) {
    in_hook(|| {
        remove_sim(path);
        let f = fs();
        f.files.push(File { data: data.to_vec(), mode: 0o644 });
        f.names.push((abs(path), f.files.len() - 1));
    })
}

#[inline(never)]
pub fn remove_sim(path: &str) {
    in_hook(|| {
        let p = abs(path);
        fs().names.retain(|n| n.0 != p)
    })
}

#[inline(never)]
pub fn get(path: &str) -> Option<Vec<u8>> {
    in_hook(|| find(&abs(path)).map(|i| fs().files[i].data.clone()))
}

/// has the simulated process changed its working directory?
#[inline(never)]
pub fn cwd_changed() -> bool {
    fs().cwd != ROOT
}

#[inline(never)]
pub fn list() -> Vec<(String, Vec<u8>)> {
    in_hook(|| {
        let f = fs();
        let mut v: Vec<_> = f.names.iter().map(|(p, i)| (p.clone(), f.files[*i].data.clone())).collect();
        v.sort();
        v
    })
}

#[inline(never)]
pub fn image() -> Vec<FileImg> {
    list()
        .into_iter()
        .map(|(path, d)| FileImg { path, data: d.iter().map(|b| *b as char).collect() })
        .collect()
}

#[inline(never)]
pub fn restore(img: &[FileImg]) {
    for f in img {
        let d: Vec<u8> = f.data.chars().map(|c| c as u32 as u8).collect();
        put(&f.path, &d);
    }
}

#[inline(never)]
pub fn open_fds() -> usize {
    fs().fds.iter().filter(|f| f.is_some()).count()
}

/// arm a fault plan; file system calls are counted from here
#[inline(never)]
pub fn arm(p: &Plan) {
    in_hook(|| {
        let f = fs();
        f.plan = p.clone();
        f.n = 0;
        f.sticky = None;
        f.room = p.room.map(|r| r as u64);
        f.used_since = 0;
        f.eintr_count = 0;
        f.injected.clear();
        f.log.clear();
    })
}

#[inline(never)]
pub fn disarm() {
    arm(&Plan::default());
}

/// errnos injected since `arm` that must not be hidden from the caller (EINTR and short writes excluded)
#[inline(never)]
pub fn injected() -> Vec<i32> {
    in_hook(|| fs().injected.clone())
}

#[inline(never)]
pub fn calls() -> u32 {
    fs().n
}

#[inline(never)]
pub fn log() -> Vec<Op> {
    in_hook(|| fs().log.clone())
}

#[inline(never)]
pub fn watch(path: &str, old: Option<Vec<u8>>, full: Vec<u8>) {
    in_hook(|| {
        fs().watch = Some(Watch { path: abs(path), old, full, bad: None, checked: 0, known: None });
    })
}

#[inline(never)]
pub fn unwatch() -> (Option<String>, u64) {
    in_hook(|| fs().watch.take().map_or((None, 0), |w| (w.bad, w.checked)))
}

// ------------------------------------------------------------------ implementation

fn find(path: &str) -> Option<usize> {
    fs().names.iter().find(|n| n.0 == path).map(|n| n.1)
}

/// a name of file `i`
fn name(i: usize) -> String {
    fs().names.iter().find(|n| n.1 == i).map_or(String::new(), |n| n.0.clone())
}

fn in_tmp(p: &str) -> bool {
    TMP.iter().any(|t| p == *t || p.strip_prefix(t).is_some_and(|r| r.starts_with('/')))
}

fn norm(p: &str) -> String {
    let mut out: Vec<&str> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c),
        }
    }
    format!("/{}", out.join("/"))
}

fn is_dir(p: &str) -> bool {
    fs().dirs.iter().any(|d| d == p)
}

unsafe fn sim_path(p: *const c_char) -> Option<String> {
    if p.is_null() || !ON.load(Relaxed) {
        return None;
    }
    let b = CStr::from_ptr(p).to_bytes();
    if b.first() == Some(&b'/') && !b.starts_with(b"/simfs") && !TMP.iter().any(|t| b.starts_with(t.as_bytes())) {
        return None;
    }
    if b.is_empty() || !sched::ACTIVE.load(Relaxed) {
        return None;
    }
    in_hook(|| {
        let t = String::from_utf8_lossy(b);
        let t = norm(&if t.starts_with('/') { t.to_string() } else { format!("{}/{t}", fs().cwd) });
        (t.starts_with("/simfs") || in_tmp(&t)).then_some(t)
    })
}

fn sim_fd(fd: c_int) -> Option<usize> {
    if fd >= FD0 && ON.load(Relaxed) {
        Some((fd - FD0) as usize)
    } else {
        None
    }
}

fn note(what: &'static str, path: &str, arg: i64, ret: i64) {
    let f = fs();
    if let Some(s) = sched::shm() {
        s.note((0xF5_0000 + (f.n as u64) * 131 + what.len() as u64).wrapping_add((ret as u64).wrapping_mul(7)));
    }
    if f.log.len() < 4000 {
        f.log.push(Op { what, path: path.to_string(), arg, ret, tid: sched::current_tid() });
    }
    let wrote = if what == "write" { f.wrote.take() } else { None };
    if let Some(w) = &mut f.watch {
        let target = f.names.iter().find(|x| x.0 == w.path).map(|x| x.1);
        let cur = target.map(|x| &f.files[x].data);
        // what a write appended to the beginning of the new file is all there is to look at
        let more = match (w.known, wrote) {
            _ if what != "write" => None,
            (Some((t, n)), None) if Some(t) == target && ret <= 0 => Some(n),
            (Some((t, n)), Some((file, pos))) if Some(t) == target && (file != t || pos == n) => Some(n),
            _ => None,
        };
        let begins = match (cur, more) {
            (Some(c), Some(n)) => c.len() >= n && w.full.get(n..c.len()).is_some_and(|x| x == &c[n..]),
            (Some(c), None) => w.full.starts_with(c),
            (None, _) => false,
        };
        w.known = if begins { target.zip(cur.map(|c| c.len())) } else { None };
        let good = match (cur, &w.old) {
            (None, None) => true,
            (None, Some(_)) => false,
            (Some(c), old) => begins || Some(c) == old.as_ref(),
        };
        let n = f.n;
        let desc = if good {
            None
        } else {
            Some(match cur {
                None => format!("after file system call {n} ({what}) the target file does not exist"),
                Some(c) => format!(
                    "after file system call {n} ({what}) the target file holds {} bytes that are neither the old content nor the beginning of the new one: {:?}",
                    c.len(),
                    String::from_utf8_lossy(&c[..c.len().min(120)])
                ),
            })
        };
        let w = f.watch.as_mut().unwrap();
        w.checked += 1;
        if w.bad.is_none() {
            w.bad = desc;
        }
    }
}

fn crash() -> ! {
    if let Some(s) = sched::shm() {
        if let Some(b) = fs().watch.as_ref().and_then(|w| w.bad.clone()) {
            s.set_msg(&b);
        }
        let t = serde_json::to_string(&image()).unwrap();
        let n = t.len().min(crate::shm::MAX_IMG);
        s.img[..n].copy_from_slice(&t.as_bytes()[..n]);
        s.img_len = n as u32;
    }
    sched::end_process(crate::shm::ST_CRASHED)
}

enum Act {
    Go,
    Fail(i32),
    Limit(usize),
    Zero,
    Torn(usize),
}

/// common entry of every simulated file system call
fn enter(is_write: bool, interruptible: bool, faultable: bool) -> Act {
    let f = fs();
    f.n += 1;
    let n = f.n;
    if let Some(k) = f.plan.eintr_every {
        if interruptible {
            f.eintr_count += 1;
            if k > 0 && f.eintr_count % k == 0 {
                fault_fired(sched::F_EINTR);
                return Act::Fail(libc::EINTR);
            }
        }
    }
    if !faultable {
        let crash_now = f.plan.at.iter().any(|x| x.0 == n && x.1 == Fault::CrashBefore);
        if crash_now {
            fault_fired(sched::F_CRASH);
            crash();
        }
        return Act::Go;
    }
    let hit = f.plan.at.iter().find(|x| x.0 == n).map(|x| x.1.clone());
    match hit {
        Some(Fault::Errno(e)) => {
            if e == libc::EINTR {
                if interruptible {
                    fault_fired(sched::F_EINTR);
                    return Act::Fail(e);
                }
            } else {
                fault_fired(sched::F_IOERR);
                f.injected.push(e);
                return Act::Fail(e);
            }
        }
        Some(Fault::Sticky(e)) => {
            fault_fired(sched::F_IOERR);
            f.sticky = Some(e);
        }
        Some(Fault::Short(k)) if is_write => return Act::Limit(k.max(1) as usize),
        Some(Fault::Zero) if is_write => {
            fault_fired(sched::F_ZERO);
            f.injected.push(0);
            return Act::Zero;
        }
        Some(Fault::CrashBefore) => {
            fault_fired(sched::F_CRASH);
            crash()
        }
        Some(Fault::Torn(k)) if is_write => return Act::Torn(k as usize),
        _ => {}
    }
    if let Some(e) = f.sticky {
        f.injected.push(e);
        return Act::Fail(e);
    }
    Act::Go
}

fn leave() {
    let f = fs();
    let n = f.n;
    if f.plan.at.iter().any(|x| x.0 == n && x.1 == Fault::CrashAfter) {
        fault_fired(sched::F_CRASH);
        crash();
    }
}

fn fail(e: i32) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn done(what: &'static str, path: &str, arg: i64, r: isize) -> isize {
    let e = unsafe { *libc::__errno_location() };
    note(what, path, arg, if r < 0 { -(e as i64) } else { r as i64 });
    leave();
    unsafe { *libc::__errno_location() = e };
    r
}

fn new_fd(f: &mut Fs, file: usize, flags: c_int) -> isize {
    f.pos.push(0);
    let acc = flags & libc::O_ACCMODE;
    let fd = Fd {
        file,
        pos: f.pos.len() - 1,
        append: flags & libc::O_APPEND != 0,
        write: acc != libc::O_RDONLY,
        read: acc != libc::O_WRONLY,
    };
    slot(f, fd)
}

/// the lowest free descriptor
fn slot(f: &mut Fs, fd: Fd) -> isize {
    let k = f.fds.iter().position(|x| x.is_none()).unwrap_or_else(|| {
        f.fds.push(None);
        f.fds.len() - 1
    });
    f.fds[k] = Some(fd);
    FD0 as isize + k as isize
}

fn fd_name(fd: &Fd) -> String {
    if fd.file == DIR {
        "directory".into()
    } else {
        name(fd.file)
    }
}

fn do_open(path: String, flags: c_int, mode: u32) -> isize {
    yield_point(K_FS);
    in_hook(|| {
        let act = enter(false, true, true);
        let f = fs();
        let wr = flags & libc::O_ACCMODE != libc::O_RDONLY;
        let r = match act {
            Act::Fail(e) => fail(e),
            _ if wr && f.plan.open_errno.is_some() => {
                let e = f.plan.open_errno.unwrap();
                fault_fired(sched::F_OPENERR);
                f.injected.push(e);
                fail(e)
            }
            _ if is_dir(&path) => {
                if wr || flags & libc::O_CREAT != 0 {
                    f.injected.push(libc::EISDIR);
                    fail(libc::EISDIR)
                } else {
                    new_fd(f, DIR, flags)
                }
            }
            _ => {
                let parent = path.rsplit_once('/').map_or("", |x| x.0).to_string();
                if !is_dir(&parent) {
                    let e = if find(&parent).is_some() { libc::ENOTDIR } else { libc::ENOENT };
                    f.injected.push(e);
                    fail(e)
                } else {
                    let idx = find(&path);
                    match idx {
                        Some(_) if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 => fail(libc::EEXIST),
                        None if flags & libc::O_CREAT == 0 => fail(libc::ENOENT),
                        _ => {
                            let i = idx.unwrap_or_else(|| {
                                f.files.push(File { data: vec![], mode: mode & 0o777 });
                                f.names.push((path.clone(), f.files.len() - 1));
                                f.files.len() - 1
                            });
                            if flags & libc::O_TRUNC != 0 {
                                f.files[i].data.clear();
                            }
                            new_fd(f, i, flags)
                        }
                    }
                }
            }
        };
        done("open", &path, flags as i64, r)
    })
}

fn do_write(k: usize, bufs: &[&[u8]], at: Option<usize>) -> isize {
    yield_point(K_FS);
    in_hook(|| {
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let f = fs();
        let Some(Some(fd)) = f.fds.get(k).cloned() else { return fail(libc::EBADF) };
        let path = fd_name(&fd);
        if !fd.write {
            return fail(libc::EBADF);
        }
        let act = enter(true, true, true);
        let f = fs();
        let mut n = total;
        let mut torn = false;
        match act {
            Act::Fail(e) => return done("write", &path, total as i64, fail(e)),
            Act::Zero => return done("write", &path, total as i64, 0),
            Act::Limit(l) => {
                if l < n {
                    fault_fired(sched::F_SHORT);
                    n = l;
                }
            }
            Act::Torn(l) => {
                n = n.min(l);
                torn = true;
            }
            Act::Go => {}
        }
        if let Some(m) = f.plan.max_write {
            if (m.max(1) as usize) < n {
                fault_fired(sched::F_SHORT);
                n = m.max(1) as usize;
            }
        }
        if let Some(room) = f.room {
            let left = room.saturating_sub(f.used_since) as usize;
            if left == 0 && total > 0 {
                fault_fired(sched::F_ENOSPC);
                f.injected.push(libc::ENOSPC);
                return done("write", &path, total as i64, fail(libc::ENOSPC));
            }
            if n > left {
                fault_fired(sched::F_SHORT);
                n = left;
            }
        }
        let mut flat: Vec<u8> = Vec::with_capacity(total);
        for b in bufs {
            flat.extend_from_slice(b);
        }
        flat.truncate(n);
        let data = &mut f.files[fd.file].data;
        let pos = match at {
            Some(p) => p,
            None if fd.append => data.len(),
            None => f.pos[fd.pos],
        };
        if data.len() < pos {
            data.resize(pos, 0);
        }
        let over = (data.len() - pos).min(n);
        data[pos..pos + over].copy_from_slice(&flat[..over]);
        data.extend_from_slice(&flat[over..]);
        f.used_since += n as u64;
        f.wrote = Some((fd.file, pos));
        if at.is_none() {
            f.pos[fd.pos] = pos + n;
        }
        if torn {
            note("write(torn)", &path, total as i64, n as i64);
            fault_fired(sched::F_TORN);
            crash();
        }
        done("write", &path, total as i64, n as isize)
    })
}

macro_rules! pass {
    ($n:expr $(, $a:expr)*) => {{
        let a = [$($a as usize),*];
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        errno_ret(raw6($n, g(0), g(1), g(2), g(3), g(4), g(5)))
    }};
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(s) => do_open(s, flags, mode) as c_int,
        None => {
            if sched::ACTIVE.load(Relaxed) {
                // the simulated process sees no cgroup limits, no /proc of the real machine
                let b = CStr::from_ptr(p).to_bytes();
                if b.starts_with(b"/proc/") || b.starts_with(b"/sys/") {
                    return fail(libc::ENOENT) as c_int;
                }
            }
            pass!(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match at_path(d, p) {
        Some(s) => do_open(s, flags, mode) as c_int,
        None => pass!(libc::SYS_openat, d, p, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int {
    open64(p, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    match sim_fd(fd) {
        Some(k) => do_write(k, &[std::slice::from_raw_parts(b as *const u8, n)], None),
        None => pass!(libc::SYS_write, fd, b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    match sim_fd(fd) {
        Some(k) => {
            let bufs: Vec<&[u8]> = in_hook(|| {
                std::slice::from_raw_parts(v, n as usize)
                    .iter()
                    .map(|x| std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len))
                    .collect()
            });
            do_write(k, &bufs, None)
        }
        None => pass!(libc::SYS_writev, fd, v, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match sim_fd(fd) {
        Some(k) => do_write(k, &[std::slice::from_raw_parts(b as *const u8, n)], Some(off as usize)),
        None => pass!(libc::SYS_pwrite64, fd, b, n, off),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, b, n, off)
}

fn do_read(k: usize, out: &mut [u8], at: Option<usize>) -> isize {
    yield_point(K_FS);
    in_hook(|| {
        let Some(Some(fd)) = fs().fds.get(k).cloned() else { return fail(libc::EBADF) };
        let path = fd_name(&fd);
        if !fd.read {
            return fail(libc::EBADF);
        }
        if let Act::Fail(e) = enter(false, true, false) {
            return done("read", &path, out.len() as i64, fail(e));
        }
        let f = fs();
        if fd.file == DIR {
            return done("read", &path, out.len() as i64, fail(libc::EISDIR));
        }
        let pos = at.unwrap_or(f.pos[fd.pos]);
        let d = &f.files[fd.file].data;
        let n = d.len().saturating_sub(pos).min(out.len());
        out[..n].copy_from_slice(&d[pos.min(d.len())..pos.min(d.len()) + n]);
        if at.is_none() {
            f.pos[fd.pos] += n;
        }
        done("read", &path, out.len() as i64, n as isize)
    })
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    match sim_fd(fd) {
        Some(k) => do_read(k, std::slice::from_raw_parts_mut(b as *mut u8, n), None),
        None => pass!(libc::SYS_read, fd, b, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match sim_fd(fd) {
        Some(k) => do_read(k, std::slice::from_raw_parts_mut(b as *mut u8, n), Some(off as usize)),
        None => pass!(libc::SYS_pread64, fd, b, n, off),
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(k) => {
            yield_point(K_FS);
            in_hook(|| {
                let f = fs();
                if k >= f.fds.len() || f.fds[k].is_none() {
                    return fail(libc::EBADF) as c_int;
                }
                let path = fd_name(f.fds[k].as_ref().unwrap());
                f.fds[k] = None;
                // counted as a call so that a crash can be placed before and after it
                f.n += 1;
                let n = f.n;
                if f.plan.at.iter().any(|x| x.0 == n && x.1 == Fault::CrashBefore) {
                    fault_fired(sched::F_CRASH);
                    crash();
                }
                done("close", &path, 0, 0) as c_int
            })
        }
        None => pass!(libc::SYS_close, fd) as c_int,
    }
}

fn simple(k: usize, what: &'static str, arg: i64, g: impl FnOnce(&mut Fs, usize) -> isize) -> isize {
    yield_point(K_FS);
    in_hook(|| {
        let Some(Some(fd)) = fs().fds.get(k).cloned() else { return fail(libc::EBADF) };
        let path = fd_name(&fd);
        if fd.file == DIR && !matches!(what, "fsync" | "fdatasync" | "fchmod") {
            return fail(libc::EISDIR);
        }
        if let Act::Fail(e) = enter(false, false, matches!(what, "fsync" | "fdatasync" | "ftruncate")) {
            return done(what, &path, arg, fail(e));
        }
        let r = g(fs(), fd.file);
        done(what, &path, arg, r)
    })
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(k) => simple(k, "fsync", 0, |_, _| 0) as c_int,
        None => pass!(libc::SYS_fsync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(k) => simple(k, "fdatasync", 0, |_, _| 0) as c_int,
        None => pass!(libc::SYS_fdatasync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    match sim_fd(fd) {
        Some(k) if fs().fds.get(k).is_some_and(|x| x.as_ref().is_some_and(|x| !x.write)) => fail(libc::EINVAL) as c_int,
        Some(k) => simple(k, "ftruncate", n, |f, i| {
            f.files[i].data.resize(n as usize, 0);
            0
        }) as c_int,
        None => pass!(libc::SYS_ftruncate, fd, n) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off64_t) -> c_int {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, m: c_int, off: off64_t, n: off64_t) -> c_int {
    match sim_fd(fd) {
        Some(_) => fail(libc::EOPNOTSUPP) as c_int,
        None => pass!(libc::SYS_fallocate, fd, m, off, n) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    match sim_fd(fd) {
        Some(k) => simple(k, "lseek", off, |f, i| {
            let len = f.files[i].data.len() as i64;
            let at = f.fds[k].as_ref().unwrap().pos;
            let p = match wh {
                libc::SEEK_SET => off,
                libc::SEEK_CUR => f.pos[at] as i64 + off,
                _ => len + off,
            };
            if p < 0 {
                return fail(libc::EINVAL);
            }
            f.pos[at] = p as usize;
            p as isize
        }) as off64_t,
        None => pass!(libc::SYS_lseek, fd, off, wh) as off64_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    match sim_fd(fd) {
        Some(_) => 0,
        None => pass!(libc::SYS_flock, fd, op) as c_int,
    }
}
fn do_dup(k: usize) -> c_int {
    yield_point(K_FS);
    in_hook(|| {
        let Some(Some(fd)) = fs().fds.get(k).cloned() else { return fail(libc::EBADF) as c_int };
        let path = fd_name(&fd);
        if let Act::Fail(e) = enter(false, false, true) {
            return done("dup", &path, 0, fail(e)) as c_int;
        }
        let r = slot(fs(), fd);
        done("dup", &path, 0, r) as c_int
    })
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    match sim_fd(fd) {
        Some(k) => do_dup(k),
        None => pass!(libc::SYS_dup, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match sim_fd(fd) {
        Some(k) => {
            if cmd == libc::F_DUPFD_CLOEXEC || cmd == libc::F_DUPFD {
                return do_dup(k);
            }
            if cmd == libc::F_GETFL {
                return match fs().fds.get(k) {
                    Some(Some(x)) => {
                        let acc = match (x.read, x.write) {
                            (true, true) => libc::O_RDWR,
                            (_, true) => libc::O_WRONLY,
                            _ => libc::O_RDONLY,
                        };
                        acc | if x.append { libc::O_APPEND } else { 0 }
                    }
                    _ => fail(libc::EBADF) as c_int,
                };
            }
            if fs().fds.get(k).is_some_and(|f| f.is_some()) {
                0
            } else {
                fail(libc::EBADF) as c_int
            }
        }
        None => pass!(libc::SYS_fcntl, fd, cmd, arg) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}

/// (directory, size, number, mode)
type St = (bool, usize, usize, u32);

fn stat_of(what: &'static str, path: &str, fd: Option<usize>) -> Result<St, isize> {
    yield_point(K_FS);
    in_hook(|| {
        if let Act::Fail(e) = enter(false, false, false) {
            return Err(done(what, path, 0, fail(e)));
        }
        let f = fs();
        let r = match fd {
            Some(k) => match f.fds.get(k) {
                Some(Some(x)) if x.file == DIR => Ok((true, 0, 9999, 0o755)),
                Some(Some(x)) => Ok((false, f.files[x.file].data.len(), x.file, f.files[x.file].mode)),
                _ => Err(libc::EBADF),
            },
            None if is_dir(path) => Ok((true, 0, 9999, 0o755)),
            None => find(path).map(|i| (false, f.files[i].data.len(), i, f.files[i].mode)).ok_or(libc::ENOENT),
        };
        match r {
            Ok(x) => {
                let _ = done(what, path, 0, 0);
                Ok(x)
            }
            Err(e) => Err(done(what, path, 0, fail(e))),
        }
    })
}

unsafe fn fill_stat(st: *mut libc::stat64, x: St) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_mode = if x.0 { libc::S_IFDIR } else { libc::S_IFREG } | x.3;
    (*st).st_size = x.1 as i64;
    (*st).st_ino = 1000 + x.2 as u64;
    (*st).st_nlink = 1;
    (*st).st_blksize = 4096;
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    let path = at_path(d, p);
    let fd = sim_fd(d);
    let empty = p.is_null() || *p == 0;
    if path.is_none() && !(fd.is_some() && empty) {
        return pass!(libc::SYS_statx, d, p, flags, mask, out) as c_int;
    }
    let r = match path {
        Some(s) => stat_of("statx", &s, None),
        None => stat_of("statx", "", fd),
    };
    match r {
        Err(e) => e as c_int,
        Ok(x) => {
            std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
            (*out).stx_mask = libc::STATX_BASIC_STATS;
            (*out).stx_mode = (if x.0 { libc::S_IFDIR } else { libc::S_IFREG } | x.3) as u16;
            (*out).stx_size = x.1 as u64;
            (*out).stx_ino = 1000 + x.2 as u64;
            (*out).stx_nlink = 1;
            (*out).stx_blksize = 4096;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    match sim_fd(fd) {
        Some(k) => match stat_of("fstat", "", Some(k)) {
            Ok(x) => {
                fill_stat(st, x);
                0
            }
            Err(e) => e as c_int,
        },
        None => pass!(libc::SYS_fstat, fd, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(p) {
        Some(s) => match stat_of("stat", &s, None) {
            Ok(x) => {
                fill_stat(st, x);
                0
            }
            Err(e) => e as c_int,
        },
        None => pass!(libc::SYS_stat, p, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    match sim_path(p) {
        Some(_) => stat64(p, st),
        None => pass!(libc::SYS_lstat, p, st) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(p, st)
}

fn path_op(what: &'static str, path: &str, g: impl FnOnce(&mut Fs) -> isize) -> isize {
    yield_point(K_FS);
    in_hook(|| {
        if let Act::Fail(e) = enter(false, false, what == "rename") {
            return done(what, path, 0, fail(e));
        }
        let r = g(fs());
        done(what, path, 0, r)
    })
}

/// the simulated path an *at() call means
unsafe fn at_path(d: c_int, p: *const c_char) -> Option<String> {
    if p.is_null() || (d != libc::AT_FDCWD && *p != b'/' as c_char) {
        return None;
    }
    sim_path(p)
}

fn do_unlink(s: &str) -> c_int {
    path_op("unlink", s, |f| {
        if is_dir(s) {
            return fail(libc::EISDIR);
        }
        if find(s).is_none() {
            return fail(libc::ENOENT);
        }
        f.names.retain(|n| n.0 != s);
        0
    }) as c_int
}

fn do_rmdir(s: &str) -> c_int {
    path_op("rmdir", s, |f| {
        let below = format!("{s}/");
        if !is_dir(s) {
            fail(if find(s).is_some() { libc::ENOTDIR } else { libc::ENOENT })
        } else if f.names.iter().any(|n| n.0.starts_with(&below)) || f.dirs.iter().any(|d| d.starts_with(&below)) {
            fail(libc::ENOTEMPTY)
        } else {
            f.dirs.retain(|d| d != s);
            0
        }
    }) as c_int
}

/// where a new name is to appear: an error the caller has to hear about, or none
fn bad_target(y: &str) -> Option<i32> {
    let parent = y.rsplit_once('/').map_or("", |x| x.0);
    if is_dir(y) {
        Some(libc::EISDIR)
    } else if !is_dir(parent) {
        Some(if find(parent).is_some() { libc::ENOTDIR } else { libc::ENOENT })
    } else {
        None
    }
}

fn do_rename(x: String, y: String, keep: bool) -> c_int {
    path_op("rename", &x, |f| {
        let Some(i) = find(&x) else { return fail(libc::ENOENT) };
        if in_tmp(&x) != in_tmp(&y) {
            return fail(libc::EXDEV);
        }
        if let Some(e) = bad_target(&y) {
            f.injected.push(e);
            return fail(e);
        }
        if keep && find(&y).is_some() {
            return fail(libc::EEXIST);
        }
        if find(&y) != Some(i) {
            f.names.retain(|n| n.0 != x && n.0 != y);
            f.names.push((y.clone(), i));
        }
        0
    }) as c_int
}

fn do_link(x: String, y: String) -> c_int {
    path_op("link", &x, |f| {
        let Some(i) = find(&x) else { return fail(libc::ENOENT) };
        if in_tmp(&x) != in_tmp(&y) {
            return fail(libc::EXDEV);
        }
        if find(&y).is_some() || is_dir(&y) {
            return fail(libc::EEXIST);
        }
        if let Some(e) = bad_target(&y) {
            return fail(e);
        }
        f.names.push((y.clone(), i));
        0
    }) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    match sim_path(p) {
        Some(s) => do_unlink(&s),
        None => pass!(libc::SYS_unlink, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, flags: c_int) -> c_int {
    match at_path(d, p) {
        Some(s) if flags & libc::AT_REMOVEDIR != 0 => do_rmdir(&s),
        Some(s) => do_unlink(&s),
        None => pass!(libc::SYS_unlinkat, d, p, flags) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match sim_path(p) {
        Some(s) => do_rmdir(&s),
        None => pass!(libc::SYS_rmdir, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    match (sim_path(a), sim_path(b)) {
        (Some(x), Some(y)) => do_rename(x, y, false),
        (None, None) => pass!(libc::SYS_rename, a, b) as c_int,
        _ => fail(libc::EXDEV) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int {
    renameat2(d, a, e, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, flags: c_uint) -> c_int {
    match (at_path(d, a), at_path(e, b)) {
        (Some(_), Some(_)) if flags & !libc::RENAME_NOREPLACE != 0 => fail(libc::EINVAL) as c_int,
        (Some(x), Some(y)) => do_rename(x, y, flags != 0),
        (None, None) => pass!(libc::SYS_renameat2, d, a, e, b, flags) as c_int,
        _ => fail(libc::EXDEV) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, flags: c_int) -> c_int {
    match (at_path(d, a), at_path(e, b)) {
        (Some(x), Some(y)) => do_link(x, y),
        (None, None) => pass!(libc::SYS_linkat, d, a, e, b, flags) as c_int,
        _ => fail(libc::EXDEV) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, a, libc::AT_FDCWD, b, 0)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    match sim_path(b) {
        // a file system without symbolic links
        Some(_) => fail(libc::EPERM) as c_int,
        None => pass!(libc::SYS_symlink, a, b) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, out: *mut c_char, n: size_t) -> ssize_t {
    match sim_path(p) {
        Some(s) => fail(if is_dir(&s) || find(&s).is_some() { libc::EINVAL } else { libc::ENOENT }),
        None => pass!(libc::SYS_readlink, p, out, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: mode_t) -> c_int {
    match sim_path(p) {
        Some(s) => path_op("mkdir", &s, |f| {
            if is_dir(&s) || find(&s).is_some() {
                fail(libc::EEXIST)
            } else if let Some(e) = bad_target(&s) {
                fail(e)
            } else {
                f.dirs.push(s.clone());
                0
            }
        }) as c_int,
        None => pass!(libc::SYS_mkdir, p, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    faccessat(libc::AT_FDCWD, p, m, 0)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, flags: c_int) -> c_int {
    match at_path(d, p) {
        Some(s) => path_op("access", &s, |_| {
            if is_dir(&s) || find(&s).is_some() {
                0
            } else {
                fail(libc::ENOENT)
            }
        }) as c_int,
        None => {
            let _ = flags;
            pass!(libc::SYS_faccessat, d, p, m) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    match sim_path(p) {
        Some(s) => path_op("chmod", &s, |f| match find(&s) {
            Some(i) => {
                f.files[i].mode = m & 0o7777;
                0
            }
            None if is_dir(&s) => 0,
            None => fail(libc::ENOENT),
        }) as c_int,
        None => pass!(libc::SYS_chmod, p, m) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: mode_t) -> c_int {
    match sim_fd(fd) {
        Some(k) => simple(k, "fchmod", m as i64, |f, i| {
            if i != DIR {
                f.files[i].mode = m & 0o7777;
            }
            0
        }) as c_int,
        None => pass!(libc::SYS_fchmod, fd, m) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, t: *const libc::timespec) -> c_int {
    match sim_fd(fd) {
        Some(_) => 0,
        None => pass!(libc::SYS_utimensat, fd, 0, t, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, n: off64_t) -> c_int {
    match sim_path(p) {
        Some(s) => path_op("truncate", &s, |f| match find(&s) {
            Some(i) => {
                f.files[i].data.resize(n.max(0) as usize, 0);
                0
            }
            None => fail(libc::ENOENT),
        }) as c_int,
        None => pass!(libc::SYS_truncate, p, n) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn truncate(p: *const c_char, n: off64_t) -> c_int {
    truncate64(p, n)
}
/// (the callers fall back to read and write)
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, x: *mut off64_t, b: c_int, y: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    if sim_fd(a).is_some() || sim_fd(b).is_some() {
        return fail(libc::ENOSYS);
    }
    pass!(libc::SYS_copy_file_range, a, x, b, y, n, fl)
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, x: *mut off64_t, n: size_t) -> ssize_t {
    if sim_fd(a).is_some() || sim_fd(b).is_some() {
        return fail(libc::EINVAL);
    }
    pass!(libc::SYS_sendfile, a, b, x, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(a: c_int, x: *mut off64_t, b: c_int, y: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t {
    if sim_fd(a).is_some() || sim_fd(b).is_some() {
        return fail(libc::EINVAL);
    }
    pass!(libc::SYS_splice, a, x, b, y, n, fl)
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    match sim_path(p) {
        Some(s) => path_op("chdir", &s, |f| {
            if is_dir(&s) {
                f.cwd = s.clone();
                0
            } else {
                fail(if find(&s).is_some() { libc::ENOTDIR } else { libc::ENOENT })
            }
        }) as c_int,
        None => pass!(libc::SYS_chdir, p) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(out: *mut c_char, n: size_t) -> *mut c_char {
    if ON.load(Relaxed) && sched::ACTIVE.load(Relaxed) && !out.is_null() {
        let c = &fs().cwd;
        if c.len() + 1 > n {
            fail(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(c.as_ptr(), out as *mut u8, c.len());
        *out.add(c.len()) = 0;
        return out;
    }
    if out.is_null() {
        fail(libc::ENOSYS);
        return std::ptr::null_mut();
    }
    let r = pass!(libc::SYS_getcwd, out, n);
    if r < 0 {
        std::ptr::null_mut()
    } else {
        out
    }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let Some(s) = sim_path(p) else {
        // (nothing outside the simulated file systems is asked for)
        fail(libc::ENOENT);
        return std::ptr::null_mut();
    };
    if !is_dir(&s) && find(&s).is_none() {
        fail(libc::ENOENT);
        return std::ptr::null_mut();
    }
    let q = if out.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(s.as_ptr(), q as *mut u8, s.len());
    *q.add(s.len()) = 0;
    q
}
#[no_mangle]
pub extern "C" fn getpid() -> libc::pid_t {
    if sched::ACTIVE.load(Relaxed) {
        return crate::env::pid();
    }
    unsafe { raw6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t }
}
