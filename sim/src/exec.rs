//! Executing a case and judging it.
use crate::case::*;
use crate::disk::{self, Fault, FileImg, Plan};
use crate::geom;
use crate::lazy::{Act, Live, Task};
use crate::ops::{run_op, Op};
use crate::rng::Rng;
use crate::runner::*;
use crate::sched::{self, in_hook, Sched};
use crate::simvec::*;
use linestring::linestring_2d::{convex_hull as ch, LineString2};
use linestring::linestring_3d::{save_to_obj_file, Line3};
use linestring::LinestringError;
use rayon::prelude::*;
use std::sync::Mutex;
use vector_traits::{GenericVector2, GenericVector3};

pub struct Outcome {
    pub viol: Option<Viol>,
    /// decisions of the process under test that differ from the default schedule
    pub devs: Vec<(u32, u32)>,
    pub dev_overflow: bool,
    /// event log hash over all simulated processes of the case
    pub hash: u64,
    pub trace: Vec<String>,
}

struct Acc<'a> {
    r: &'a mut Runner,
    hash: u64,
    devs: Vec<(u32, u32)>,
    dev_overflow: bool,
    trace: Vec<String>,
}

impl Acc<'_> {
    fn aux(&mut self, s: &Sched, e: Env, f: impl FnOnce() -> Body) -> ChildRes {
        self.aux_at(s, e, None, f)
    }
    fn aux_at(&mut self, s: &Sched, e: Env, image: Option<(String, u64)>, f: impl FnOnce() -> Body) -> ChildRes {
        let c = self.r.child(s, e, image, f);
        self.hash = crate::rng::mix(self.hash, c.hash ^ c.steps);
        c
    }
    fn main(&mut self, s: &Sched, e: Env, f: impl FnOnce() -> Body) -> ChildRes {
        self.main_at(s, e, None, f)
    }
    fn main_at(&mut self, s: &Sched, e: Env, image: Option<(String, u64)>, f: impl FnOnce() -> Body) -> ChildRes {
        let c = self.aux_at(s, e, image, f);
        self.devs = c.devs.clone();
        self.dev_overflow = c.dev_overflow;
        self.trace = c.trace.clone();
        c
    }
}

pub fn exec(case: &Case, r: &mut Runner) -> Outcome {
    let mut a = Acc { r, hash: 0, devs: vec![], dev_overflow: false, trace: vec![] };
    let v = exec_work(case, &mut a);
    Outcome { viol: v, devs: a.devs, dev_overflow: a.dev_overflow, hash: a.hash, trace: a.trace }
}

// ------------------------------------------------------------------ hulls and containment

macro_rules! by_vt2 {
    ($vt:expr, $f:ident, $($a:expr),*) => {
        match $vt {
            0 => $f::<SimVec2<f64>>($($a),*),
            1 => $f::<SimVec2<f32>>($($a),*),
            2 => $f::<vector_traits::glam::DVec2>($($a),*),
            3 => $f::<vector_traits::glam::Vec2>($($a),*),
            _ => $f::<vector_traits::cgmath::Vector2<f64>>($($a),*),
        }
    };
}

fn verts<T: GenericVector2>(at: &Place, p: &[[f64; 2]]) -> Vec<T>
where
    T::Scalar: Sc,
{
    in_hook(|| p.iter().map(|p| at.to(p)).map(|p| T::new_2d(T::Scalar::of(p[0]), T::Scalar::of(p[1]))).collect())
}

/// the points the hull is to be computed of
fn selection(h: &Hull) -> Vec<usize> {
    match &h.sel {
        Some(s) => s.clone(),
        None => (0..h.pts.len()).collect(),
    }
}

fn hull_call<T: GenericVector2>(h: &Hull) -> Call<Result<(Vec<[f64; 2]>, Option<Vec<usize>>), LinestringError>>
where
    T::Scalar: Sc,
{
    let v: Vec<T> = verts(&h.place, &h.pts);
    let xy = |p: &T| h.place.back([p.x().f(), p.y().f()]);
    match &h.sel {
        None => match call(|| v.convex_hull_par(h.chunk)) {
            Call::Ret(r) => in_hook(|| Call::Ret(r.map(|l| (l.iter().map(xy).collect(), None)))),
            Call::Injected => Call::Injected,
            Call::Panic(p) => Call::Panic(p),
        },
        Some(s) => match call(|| ch::convex_hull_par(&v, s, h.chunk)) {
            Call::Ret(Ok(l)) => in_hook(|| {
                if let Some(i) = l.iter().find(|i| **i >= v.len()) {
                    return Call::Panic(format!("the result contains the index {i} of {} vertices", v.len()));
                }
                Call::Ret(Ok((l.iter().map(|i| xy(&v[*i])).collect(), Some(l))))
            }),
            Call::Ret(Err(e)) => Call::Ret(Err(e)),
            Call::Injected => Call::Injected,
            Call::Panic(p) => Call::Panic(p),
        },
    }
}

/// does the returned list describe the hull of the selected points?
fn judge_hull(h: &Hull, got: &[[f64; 2]], idx: &Option<Vec<usize>>) -> Option<Viol> {
    let sel = selection(h);
    if let Some(l) = idx {
        if let Some(i) = l.iter().find(|i| !sel.contains(i)) {
            return viol("index-not-selected", format!("the hull contains vertex {i}, which was not selected"));
        }
    }
    // f32 types see the rounded points
    let f32t = matches!(h.vt, 1 | 3);
    let pts: Vec<[f64; 2]> = sel
        .iter()
        .map(|i| h.pts[*i])
        .map(|p| if f32t { [p[0] as f32 as f64, p[1] as f32 as f64] } else { p })
        .collect();
    let show = || format!("got {got:?} for the points {pts:?} in chunks of {}", h.chunk);
    if let Some(p) = got.iter().find(|p| !pts.contains(p)) {
        return viol("point-not-selected", format!("the hull contains {p:?}, which was not selected; {}", show()));
    }
    if h.exact {
        let ip: Vec<geom::P> = pts.iter().map(|p| (p[0] as i64, p[1] as i64)).collect();
        let want = geom::hull(&ip);
        if want.len() < 3 {
            return None; // no polygon: only termination and the membership above are promised
        }
        if got.len() < 2 || got[0] != got[got.len() - 1] {
            return viol("open-hull", format!("first and last element differ; {}", show()));
        }
        let g: Vec<geom::P> = got[..got.len() - 1].iter().map(|p| (p[0] as i64, p[1] as i64)).collect();
        let ok = g.len() == want.len()
            && want.iter().position(|w| *w == g[0]).is_some_and(|k| (0..g.len()).all(|i| g[i] == want[(k + i) % want.len()]));
        if !ok {
            return viol("wrong-hull", format!("{}; the hull is {want:?}", show()));
        }
    } else {
        let scale = pts.iter().flatten().fold(1e-300f64, |a, b| a.max(b.abs()));
        let eps = if f32t { 4e-5 } else { 1e-12 } * scale * scale;
        if got.len() < 4 || got[0] != got[got.len() - 1] {
            return viol("open-hull", format!("not a closed polygon; {}", show()));
        }
        let n = got.len() - 1;
        let cr = |o: [f64; 2], a: [f64; 2], b: [f64; 2]| (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]);
        let mut area = 0.0;
        for i in 0..n {
            area += cr([0.0, 0.0], got[i], got[i + 1]);
            for p in &pts {
                if cr(got[i], got[i + 1], *p) < -eps {
                    return viol(
                        "wrong-hull",
                        format!("point {p:?} lies outside the edge {:?}-{:?}; {}", got[i], got[i + 1], show()),
                    );
                }
            }
            for j in 0..i {
                if got[i] == got[j] {
                    return viol("wrong-hull", format!("the point {:?} occurs twice; {}", got[i], show()));
                }
            }
            if cr(got[i], got[i + 1], got[(i + 2) % n]) < -eps {
                return viol("wrong-hull", format!("not convex at {:?}; {}", got[i + 1], show()));
            }
        }
        if area <= 0.0 {
            return viol("wrong-hull", format!("not counter clockwise; {}", show()));
        }
    }
    None
}

pub enum JobRes {
    Good,
    Bad(Viol),
    Injected,
    Err(String),
    Panic(String),
}

fn contain_call<T: GenericVector2>(c: &Contain) -> (Call<bool>, Call<bool>)
where
    T::Scalar: Sc,
{
    let mut a: Vec<T> = verts(&c.place, &c.a);
    if c.closed && !a.is_empty() {
        a.push(a[0]);
    }
    let b: Vec<T> = verts(&c.place, &c.b);
    let par = call(|| ch::contains_convex_hull_par(&a, &b));
    let seq = in_hook(|| call(|| ch::contains_convex_hull(&a, &b)));
    (par, seq)
}

fn run_job(j: &Job) -> JobRes {
    match j {
        Job::Hull(h) => match by_vt2!(h.vt, hull_call, h) {
            Call::Ret(Ok((g, i))) => match in_hook(|| judge_hull(h, &g, &i)) {
                None => JobRes::Good,
                Some(v) => JobRes::Bad(v),
            },
            Call::Ret(Err(e)) => in_hook(|| JobRes::Err(format!("{e:?}"))),
            Call::Injected => JobRes::Injected,
            Call::Panic(p) => JobRes::Panic(p),
        },
        Job::Contain(c) => {
            let (par, seq) = by_vt2!(c.vt, contain_call, c);
            in_hook(|| {
                let ip: Vec<geom::P> = c.a.iter().map(|p| (p[0] as i64, p[1] as i64)).collect();
                let want = if c.a.len() <= 1 {
                    false
                } else if c.b.is_empty() {
                    true
                } else {
                    c.b.iter().all(|p| geom::inside(&ip, (p[0] as i64, p[1] as i64)))
                };
                match par {
                    Call::Ret(g) if g == want => {}
                    Call::Ret(g) => {
                        return JobRes::Bad(Viol {
                            class: "wrong-containment".into(),
                            detail: format!("parallel answer {g}, exact answer {want} for {c:?}"),
                        })
                    }
                    Call::Injected => return JobRes::Injected,
                    Call::Panic(p) => return JobRes::Panic(p),
                }
                match seq {
                    Call::Ret(g) if g != want => JobRes::Bad(Viol {
                        class: "parallel-sequential-disagree".into(),
                        detail: format!("sequential answer {g}, parallel and exact answer {want} for {c:?}"),
                    }),
                    Call::Panic(p) => JobRes::Panic(p),
                    _ => JobRes::Good,
                }
            })
        }
    }
}

/// run job i for every caller of the pool arrangement; `f(i)` is called on the caller's thread
fn with_pool<R: Send>(pool: &Pool, threads: u32, n: usize, f: &(dyn Fn(usize) -> R + Sync)) -> Vec<R> {
    let n_threads = (threads as usize).max(1);
    let global = || rayon::ThreadPoolBuilder::new().num_threads(n_threads).build_global().expect("global pool");
    let local = || rayon::ThreadPoolBuilder::new().num_threads(n_threads).build().expect("pool");
    match pool {
        Pool::Global => {
            global();
            (0..n).map(f).collect()
        }
        Pool::Install => {
            let p = local();
            let r = p.install(|| (0..n).map(f).collect());
            drop(p);
            r
        }
        Pool::Callers(k) => {
            global();
            let k = (*k as usize).max(1);
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..k.max(n)).map(|i| s.spawn(move || f(i))).collect();
                hs.into_iter().map(|h| h.join().expect("caller thread")).collect()
            })
        }
        Pool::Scope(k) => {
            let p = local();
            let k = (*k as usize).max(n);
            let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
            p.scope(|s| {
                for i in 0..k {
                    let out = &out;
                    s.spawn(move |_| {
                        let r = f(i);
                        out.lock().unwrap().push((i, r));
                    });
                }
            });
            drop(p);
            let mut v = out.into_inner().unwrap();
            v.sort_by_key(|x| x.0);
            v.into_iter().map(|x| x.1).collect()
        }
        Pool::Join(k) => {
            let p = local();
            let k = (*k as usize).max(n);
            let r = p.install(|| join_tree(0, k, f));
            drop(p);
            r
        }
        Pool::ParIter(k) => {
            let p = local();
            let k = (*k as usize).max(n);
            let r = p.install(|| (0..k).into_par_iter().map(f).collect());
            drop(p);
            r
        }
    }
}

fn join_tree<R: Send>(lo: usize, hi: usize, f: &(dyn Fn(usize) -> R + Sync)) -> Vec<R> {
    if hi - lo == 1 {
        return vec![f(lo)];
    }
    let mid = (lo + hi) / 2;
    let (mut a, b) = rayon::join(|| join_tree(lo, mid, f), || join_tree(mid, hi, f));
    a.extend(b);
    a
}

fn strict(r: JobRes) -> Option<Viol> {
    match r {
        JobRes::Good => None,
        JobRes::Bad(v) => Some(v),
        JobRes::Injected => viol("stray-panic", "an injected panic reached a call it was not injected into"),
        JobRes::Err(e) => viol("spurious-error", format!("finite, valid input was rejected: {e}")),
        JobRes::Panic(p) => viol("panic", format!("the call panicked: {p}")),
    }
}

fn exec_par(a: &mut Acc, case: &Case, pool: &Pool, threads: u32, jobs: &[Job]) -> Option<Viol> {
    let e = Env { hash_seed: case.hash_seed, fill: case.fill };
    let c = a.main(&case.sched, e, || {
        let rs = with_pool(pool, threads, jobs.len(), &|i| strict(run_job(&jobs[i % jobs.len()])));
        let mut b = Body { viol: rs.iter().flatten().next().cloned(), ..Default::default() };
        for j in jobs {
            match j {
                Job::Hull(h) => {
                    let n = selection(h).len();
                    b.probe("hull_calls", 1);
                    b.probe("hull_calls_with_3_or_more_chunks", (n > 2 * h.chunk) as u64);
                    if h.exact {
                        let p: Vec<geom::P> = selection(h).iter().map(|i| (h.pts[*i][0] as i64, h.pts[*i][1] as i64)).collect();
                        b.probe("hull_calls_on_collinear_points", geom::degenerate(&p) as u64);
                        let mut q = p.clone();
                        q.sort_unstable();
                        q.dedup();
                        b.probe("hull_calls_with_duplicate_points", (q.len() < p.len()) as u64);
                    }
                }
                Job::Contain(c) => {
                    let ip: Vec<geom::P> = c.a.iter().map(|p| (p[0] as i64, p[1] as i64)).collect();
                    let out = c.b.iter().filter(|p| !geom::inside(&ip, (p[0] as i64, p[1] as i64))).count();
                    b.probe("containment_calls_true", (out == 0) as u64);
                    b.probe("containment_calls_one_point_outside", (out == 1) as u64);
                }
            }
        }
        b
    });
    end_violation(&c)
}

fn exec_nonfinite(a: &mut Acc, case: &Case, pool: &Pool, threads: u32, job: &Hull, bad: &[Bad], bad_selected: bool) -> Option<Viol> {
    let e = Env { hash_seed: case.hash_seed, fill: case.fill };
    let mut dirty = job.clone();
    for Bad::NonFinite { at, comp, kind } in bad {
        dirty.pts[*at][*comp as usize & 1] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][*kind as usize % 3];
    }
    let desc = format!("{bad:?} among {} vertices, chunk size {}", job.pts.len(), job.chunk);
    let c = a.main(&case.sched, e, || {
        for _ in bad {
            sched::fault_fired(sched::F_NONFINITE);
        }
        let one = |h: &Hull, must_fail: bool| -> Option<Viol> {
            match by_vt2!(h.vt, hull_call, h) {
                Call::Ret(Err(_)) if must_fail => None,
                Call::Ret(Err(e)) => viol("spurious-error", format!("all selected points are finite, but: {e:?}")),
                Call::Ret(Ok((g, _))) if must_fail => {
                    viol("non-finite-accepted", format!("no error for {desc}; returned {g:?}"))
                }
                Call::Ret(Ok((g, i))) => in_hook(|| judge_hull(&Hull { pts: job.pts.clone(), ..h.clone() }, &g, &i)),
                Call::Injected => viol("stray-panic", ""),
                Call::Panic(p) => viol("panic", format!("panicked instead of reporting an error: {p} ({desc})")),
            }
        };
        let rs = with_pool(pool, threads, 2, &|i| {
            if i % 2 == 0 {
                let first = one(&dirty, bad_selected);
                // the pool and the library stay usable
                first.or_else(|| one(job, false)).or_else(|| one(&dirty, bad_selected))
            } else {
                one(job, false)
            }
        });
        let mut b = Body { viol: rs.into_iter().flatten().next(), ..Default::default() };
        b.probe("calls_that_must_fail", bad_selected as u64);
        b.probe("calls_with_unselected_non_finite", !bad_selected as u64);
        b
    });
    end_violation(&c)
}

#[allow(clippy::too_many_arguments)]
fn exec_panic(
    a: &mut Acc, case: &Case, pool: &Pool, threads: u32, job: &Job, other: &[Job], at: u32,
    bad_index: &Option<(usize, usize)>, rounds: u32,
) -> Option<Viol> {
    let e = Env { hash_seed: case.hash_seed, fill: case.fill };
    let n = 1 + other.len();
    let all = |i: usize| if i % n == 0 { job } else { &other[i % n - 1] };
    let broken = bad_index.map(|(pos, val)| {
        let mut j = job.clone();
        if let Job::Hull(h) = &mut j {
            let s = h.sel.get_or_insert_with(|| (0..h.pts.len()).collect());
            let l = s.len().max(1);
            s[pos % l] = h.pts.len() + val;
        }
        j
    });
    // how many vector operations does a panic free run of this workload take?
    let count = if bad_index.is_some() {
        0
    } else {
        let c = a.aux(&case.sched, e, || {
            let rs = with_pool(pool, threads, n, &|i| strict(run_job(all(i))));
            Body {
                viol: rs.into_iter().flatten().next(),
                out: vec![vec![sched::shm().map_or(0, |s| s.vec_ops)]],
                ..Default::default()
            }
        });
        if let Some(v) = end_violation(&c) {
            return Some(v);
        }
        c.body.out[0][0]
    };
    let c = a.main(&case.sched, e, || {
        let fired = |base: u64| sched::shm().map_or(0, |s| s.faults[sched::F_PANIC]) > base;
        let mut b = Body::default();
        let mut rs = vec![];
        let state: Mutex<Vec<Option<Viol>>> = Mutex::new(vec![]);
        // several rounds in the same process and pool: a panic, then clean calls
        let body = |i: usize| -> (Option<Viol>, bool) {
            let mut injected = false;
            for round in 0..rounds.max(1) {
                if let Some(j) = &broken {
                    if i % n == 0 {
                        sched::fault_fired(sched::F_BADINDEX);
                        match run_job(j) {
                            JobRes::Panic(_) | JobRes::Err(_) => {}
                            JobRes::Injected => return (viol("stray-panic", ""), injected),
                            _ => return (viol("bad-index-accepted", "an index outside of the vertex list was accepted"), injected),
                        }
                    }
                } else {
                    if i % n == 0 {
                        sched::set_panic_at(1 + count * at as u64 / 1000 / (round as u64 + 1));
                    }
                    let base = sched::shm().map_or(0, |s| s.faults[sched::F_PANIC]);
                    let r = run_job(all(i));
                    if i % n == 0 {
                        // disarm before anything else of this caller runs
                        sched::set_panic_at(u64::MAX);
                    }
                    match r {
                        JobRes::Injected => {
                            injected = true;
                            if !fired(0) {
                                return (viol("stray-panic", ""), injected);
                            }
                        }
                        JobRes::Good if n == 1 && matches!(pool, Pool::Global | Pool::Install) && fired(base) => {
                            return (
                                viol("panic-swallowed", "a vector operation panicked in a worker but the call returned normally"),
                                injected,
                            )
                        }
                        r => {
                            if let Some(v) = strict(r) {
                                return (Some(v), injected);
                            }
                        }
                    }
                }
                if matches!(pool, Pool::Global | Pool::Install | Pool::Callers(_)) && i % n == 0 {
                    // afterwards the same thread gets correct answers (unless another caller's panic is pending)
                    if n == 1 {
                        if let Some(v) = strict(run_job(job)) {
                            return (Some(Viol { class: format!("after-panic-{}", v.class), detail: v.detail }), injected);
                        }
                    }
                }
            }
            (None, injected)
        };
        // one pool for everything: the global one, or one that lives for the whole closure
        let results = with_pool(pool, threads, n, &|i| {
            let (v, inj) = body(i);
            state.lock().unwrap().push(v.clone());
            (v, inj)
        });
        let n_inj = results.iter().filter(|r| r.1).count() as u64;
        let n_fired = sched::shm().map_or(0, |s| s.faults[sched::F_PANIC]);
        rs.extend(results.into_iter().map(|r| r.0));
        if rounds.max(1) == 1 && n_inj != n_fired && rs.iter().flatten().next().is_none() {
            rs.push(viol(
                "panic-swallowed",
                format!("{n_fired} vector operations panicked, but {n_inj} calls reported a panic to their caller"),
            ));
        }
        // and a fresh caller in the same process, on the global pool if that is what was used
        if rs.iter().flatten().next().is_none() {
            if let Some(v) = strict(run_job(job)) {
                rs.push(Some(Viol { class: format!("after-panic-{}", v.class), detail: v.detail }));
            }
        }
        b.viol = rs.into_iter().flatten().next();
        b.probe("panics_that_reached_the_caller", n_inj);
        b.probe("out_of_range_index_calls", broken.is_some() as u64);
        b
    });
    end_violation(&c)
}

// ------------------------------------------------------------------ histories and environments

fn exec_conc(a: &mut Acc, case: &Case, pool: &Pool, threads: u32, callers: &[Vec<Op>], panic_at: u32) -> Option<Viol> {
    let e = Env { hash_seed: case.hash_seed, fill: case.fill };
    let mut solo: Vec<Vec<Vec<u64>>> = vec![];
    let mut total = 0;
    let quiet = Sched { seed: case.sched.seed, budget: case.sched.budget, ncpu: case.sched.ncpu, ..Sched::simple() };
    for (i, ops) in callers.iter().enumerate() {
        let mut row = vec![];
        for op in ops {
            // the reference: this operation alone in a fresh process
            let c = a.aux(&quiet, e, || {
                let dir = format!("/simfs/c{i}");
                disk::mkdir_sim(&dir);
                let _ = rayon::ThreadPoolBuilder::new().num_threads(threads.max(1) as usize).build_global();
                Body { out: vec![run_op(op, &dir)], ..Default::default() }
            });
            if let Some(v) = end_violation(&c) {
                return Some(Viol { class: format!("solo-{}", v.class), detail: format!("{} {op:?}", v.detail) });
            }
            total += c.vec_ops;
            row.push(c.body.out[0].clone());
        }
        solo.push(row);
    }
    let c = a.main(&case.sched, e, || {
        for i in 0..callers.len() {
            disk::mkdir_sim(&format!("/simfs/c{i}"));
        }
        if panic_at > 0 {
            sched::set_panic_at(1 + total * panic_at as u64 / 1000);
        }
        let n = callers.len();
        let bad = |i: usize, k: usize, got: Vec<u64>| -> Option<Viol> {
            if got == solo[i][k] || (panic_at > 0 && got == vec![0xDEAD_BEEF]) {
                None
            } else {
                viol(
                    "result-differs-from-solo",
                    format!("caller {i}, operation {k} ({}): digest {:x?}, alone {:x?}", callers[i][k].k, head(&got), head(&solo[i][k])),
                )
            }
        };
        let rs: Vec<Option<Viol>> = if *pool == Pool::Global {
            // one caller, a history
            let _ = rayon::ThreadPoolBuilder::new().num_threads(threads.max(1) as usize).build_global();
            let most = callers.iter().map(|c| c.len()).max().unwrap_or(0);
            let mut v = vec![];
            for k in 0..most {
                for (i, c) in callers.iter().enumerate() {
                    if k < c.len() {
                        v.push(bad(i, k, run_op(&c[k], &format!("/simfs/c{i}"))));
                    }
                }
            }
            v
        } else {
            with_pool(pool, threads, n, &|i| {
                if i >= n {
                    return None;
                }
                let dir = format!("/simfs/c{i}");
                let mut first = None;
                for k in 0..callers[i].len() {
                    let g = run_op(&callers[i][k], &dir);
                    if first.is_none() {
                        first = in_hook(|| bad(i, k, g));
                    }
                }
                first
            })
        };
        let mut b = Body { viol: rs.into_iter().flatten().next(), ..Default::default() };
        b.probe("operations_compared", callers.iter().map(|c| c.len() as u64).sum());
        for c in callers {
            for o in c {
                b.probe(&format!("op_{}", o.k), 1);
            }
        }
        b
    });
    end_violation(&c)
}

/// tasks shared by the callers; a caller takes one out, advances it and puts it back.  Only the
/// thread that holds the scheduler's token touches it.
struct Table(std::cell::UnsafeCell<Vec<Option<Live>>>);
unsafe impl Sync for Table {}
impl Table {
    fn take(&self, i: usize) -> Option<Live> {
        in_hook(|| unsafe { (&mut *self.0.get())[i].take() })
    }
    fn put(&self, i: usize, l: Live) {
        in_hook(|| unsafe { (&mut *self.0.get())[i] = Some(l) })
    }
}

fn exec_lazy(a: &mut Acc, case: &Case, pool: &Pool, threads: u32, tasks: &[Task], callers: &[Vec<Act>]) -> Option<Viol> {
    let e = Env { hash_seed: case.hash_seed, fill: case.fill };
    let quiet = Sched { seed: case.sched.seed, budget: case.sched.budget, ncpu: case.sched.ncpu, ..Sched::simple() };
    let dir = "/simfs/c";
    // the references: the task on its own from beginning to end, data handed over at once
    let mut solo: Vec<Vec<Vec<u64>>> = vec![];
    let mut nested: Vec<Vec<u64>> = vec![];
    let one = |a: &mut Acc, op: &Op| -> Result<Vec<u64>, Viol> {
        let c = a.aux(&quiet, e, || {
            disk::mkdir_sim(dir);
            let _ = rayon::ThreadPoolBuilder::new().num_threads(threads.max(1) as usize).build_global();
            Body { out: vec![run_op(op, dir)], ..Default::default() }
        });
        match end_violation(&c) {
            Some(v) => Err(Viol { class: format!("solo-{}", v.class), detail: format!("{} {op:?}", v.detail) }),
            None => Ok(c.body.out[0].clone()),
        }
    };
    for t in tasks {
        let c = a.aux(&quiet, e, || {
            let t = Task { pieces: 1, nested: None, panics: false, ..t.clone() };
            let mut l = Live::new(&t, dir);
            let mut out = vec![];
            while let Some(d) = l.step() {
                out.push(d);
            }
            Body { out, ..Default::default() }
        });
        if let Some(v) = end_violation(&c) {
            return Some(Viol { class: format!("solo-{}", v.class), detail: format!("{} {t:?}", v.detail) });
        }
        solo.push(c.body.out);
        nested.push(match &t.nested {
            None => vec![],
            Some(op) => match one(a, op) {
                Ok(d) => d,
                Err(v) => return Some(v),
            },
        });
    }
    let mut calls: Vec<Vec<Vec<u64>>> = vec![];
    for c in callers {
        let mut row = vec![];
        for x in c {
            row.push(match x {
                Act::Call { op } => match one(a, op) {
                    Ok(d) => d,
                    Err(v) => return Some(v),
                },
                _ => vec![],
            });
        }
        calls.push(row);
    }
    let c = a.main(&case.sched, e, || {
        disk::mkdir_sim(dir);
        for i in 0..callers.len() {
            disk::mkdir_sim(&format!("{dir}{i}"));
        }
        let n = callers.len();
        let live: Vec<Option<Live>> = tasks.iter().enumerate().map(|(i, t)| Some(Live::new(t, &format!("/simfs/t{i}")))).collect();
        for i in 0..tasks.len() {
            disk::mkdir_sim(&format!("/simfs/t{i}"));
        }
        let table = Table(std::cell::UnsafeCell::new(live));
        let movers = std::cell::UnsafeCell::new(vec![0u64; tasks.len()]);
        struct Mv<'a>(&'a std::cell::UnsafeCell<Vec<u64>>);
        unsafe impl Sync for Mv<'_> {}
        impl Mv<'_> {
            fn mark(&self, i: usize, who: usize) {
                unsafe { (&mut *self.0.get())[i] |= 1 << (who as u64).min(63) };
            }
        }
        let mv = Mv(&movers);
        let mv = &mv;
        // one step of task i, compared with the reference
        let advance = |i: usize, l: &mut Live, who: usize| -> Option<Viol> {
            let k = l.steps;
            let before = l.inside.seen.len();
            let Some(d) = l.step() else { return None };
            in_hook(|| {
                mv.mark(i, who);
                let t = &tasks[i];
                for s in &l.inside.seen[before..] {
                    if *s != nested[i] {
                        return viol(
                            "nested-call-differs",
                            format!("{} called from the caller's code inside {}: digest {:x?}, alone {:x?}", t.nested.as_ref().unwrap().k, t.op.k, head(s), head(&nested[i])),
                        );
                    }
                }
                if l.panicked || l.inside.fired {
                    if l.panicked != l.inside.fired {
                        return viol("callback-panic-lost", format!("the caller's code inside {} panicked, the call did not", t.op.k));
                    }
                    if let Some(m) = l.inside.mangled.take() {
                        return viol("points-lost-by-panic", format!("{}: {m}", t.op.k));
                    }
                    return None;
                }
                match solo[i].get(k) {
                    Some(w) if *w == d => None,
                    w => viol(
                        "step-differs",
                        format!("task {i} ({}), step {k}: digest {:x?}, alone {:x?}", t.op.k, head(&d), w.map(|w| head(w))),
                    ),
                }
            })
        };
        let rs: Vec<Option<Viol>> = with_pool(pool, threads, n, &|c| {
            let mut first: Option<Viol> = None;
            if c >= n {
                return None;
            }
            for (j, x) in callers[c].iter().enumerate() {
                match x {
                    Act::Call { op } => {
                        let g = run_op(op, &format!("{dir}{c}"));
                        if g != calls[c][j] && first.is_none() {
                            first = in_hook(|| {
                                viol("result-differs-from-solo", format!("{}: digest {:x?}, alone {:x?}", op.k, head(&g), head(&calls[c][j])))
                            });
                        }
                    }
                    Act::Drop { task } => drop(table.take(*task % tasks.len())),
                    Act::Step { task, n } => {
                        let i = *task % tasks.len();
                        if let Some(mut l) = table.take(i) {
                            for _ in 0..*n {
                                let v = advance(i, &mut l, c + 1);
                                if first.is_none() {
                                    first = v;
                                }
                            }
                            table.put(i, l);
                        }
                    }
                }
            }
            first
        });
        let mut v = rs.into_iter().flatten().next();
        let mut dropped = 0;
        // what nobody finished is finished here
        for i in 0..tasks.len() {
            match table.take(i) {
                None => dropped += 1,
                Some(mut l) => {
                    while !l.done {
                        let w = advance(i, &mut l, 0);
                        if v.is_none() {
                            v = w;
                        }
                    }
                    if v.is_none() && !l.panicked && l.steps != solo[i].len() {
                        v = viol("step-differs", format!("task {i} ({}) ended after {} steps, alone after {}", tasks[i].op.k, l.steps, solo[i].len()));
                    }
                }
            }
        }
        let mut b = Body { viol: v, ..Default::default() };
        b.probe("tasks_not_finished", dropped);
        b.probe("tasks_advanced_by_several_threads", movers.into_inner().iter().filter(|m| m.count_ones() > 1).count() as u64);
        b.probe("nested_calls", tasks.iter().filter(|t| t.nested.is_some()).count() as u64);
        b.probe("callback_panics", tasks.iter().filter(|t| t.panics).count() as u64);
        for t in tasks {
            b.probe(&format!("task_{}", t.op.k), 1);
        }
        b
    });
    end_violation(&c)
}

/// kinds that are given non-finite coordinates and indices out of range
const BAD_INPUT: &[&str] = &["graham", "igraham", "ihullpar", "hullpar", "sweep", "isweep", "obj"];

/// the calls of one round
fn leak_round(kinds: &[String], lazy: &[String], seed: u64, round: u32, max: usize, bad: u8) -> (Vec<Op>, Vec<(Task, usize)>, Option<disk::Plan>, u64) {
    in_hook(|| {
        let mut r = Rng::new(crate::rng::mix(seed, round as u64));
        let r = &mut r;
        let mut ops: Vec<Op> = vec![];
        for k in kinds {
            let mut op = crate::ops::gen_op(r, k, max);
            if bad == 2 && BAD_INPUT.contains(&op.k.as_str()) {
                sched::fault_fired(sched::F_NONFINITE);
                let i = r.below(op.pts.len() as u64) as usize;
                let c = r.below(2) as usize;
                op.pts[i][c] = r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                if r.chance(1, 4) && !op.idx.is_empty() {
                    let j = r.below(op.idx.len() as u64) as usize;
                    op.idx[j] = op.pts.len() + 3;
                }
            }
            ops.push(op);
        }
        let mut tasks = vec![];
        for k in lazy {
            let mut op = crate::ops::gen_op(r, if matches!(k.as_str(), "sweep" | "isweep") { k } else { "rdp2" }, max.max(4));
            while op.pts.len() < 4 {
                op.pts.push([1.0, 2.0, 3.0]);
            }
            op.k = k.clone();
            let panics = bad == 1 && r.chance(1, 2);
            tasks.push((Task { op, pieces: r.us(1, 4), nested: None, at: r.us(0, 4), panics }, r.us(0, 6)));
        }
        let plan = (bad == 3).then(|| disk::Plan {
            at: vec![(r.us(0, 4) as u32, disk::Fault::Sticky(r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EDQUOT])))],
            ..Default::default()
        });
        let most = r.pick(&[10, 60, 300]);
        (ops, tasks, plan, 1 + r.below(most))
    })
}

#[allow(clippy::too_many_arguments)]
fn exec_leak(a: &mut Acc, case: &Case, pool: &Pool, threads: u32, rounds: u32, kinds: &[String], lazy: &[String], seed: u64, max: usize, varied: bool, bad: u8) -> Option<Viol> {
    let e = Env { hash_seed: case.hash_seed, fill: case.fill };
    let rounds = rounds.clamp(8, 200) as usize;
    let c = a.main(&case.sched, e, || {
        let dir = "/simfs/c";
        disk::mkdir_sim(dir);
        crate::ops::FRESH_BUFS.store(true, std::sync::atomic::Ordering::Relaxed);
        let n = (threads as usize).max(1);
        let own = if *pool == Pool::Install { rayon::ThreadPoolBuilder::new().num_threads(n).build().ok() } else { None };
        if own.is_none() {
            let _ = rayon::ThreadPoolBuilder::new().num_threads(n).build_global();
        }
        let one = |round: usize| {
            let (ops, tasks, plan, at) = leak_round(kinds, lazy, seed, if varied { round as u32 } else { round as u32 % 2 }, max, bad);
            if bad == 1 {
                sched::set_panic_at(at);
            }
            for op in &ops {
                if let Some(p) = &plan {
                    disk::arm(p);
                }
                let d = run_op(op, dir);
                drop(d);
            }
            disk::disarm();
            for (t, steps) in &tasks {
                drop(call(|| {
                    let mut l = Live::new(t, dir);
                    for _ in 0..*steps {
                        drop(l.step());
                    }
                }));
            }
            sched::set_panic_at(u64::MAX);
            in_hook(|| drop((ops, tasks, plan)));
        };
        // per round: blocks, bytes, threads, descriptors; taken when nothing but this thread can run
        let mut seen: Vec<(usize, usize, usize, usize)> = in_hook(|| Vec::with_capacity(rounds));
        for round in 0..rounds {
            sched_period(round + 1);
            match &own {
                Some(p) => p.install(|| one(round)),
                None => one(round),
            }
            sched_period(0);
            std::thread::sleep(std::time::Duration::from_millis(1));
            std::thread::sleep(std::time::Duration::from_millis(1));
            let (b, y) = crate::env::alive_all();
            seen.push((b, y, sched::live_threads(), disk::open_fds()));
        }
        // what the queues of the thread pool have retired is only freed when the threads that retired it collect it
        if own.is_some() || kinds.iter().any(|k| is_par(k)) {
            for _ in 0..4 {
                let collect = |_: rayon::BroadcastContext| (0..4).for_each(|_| crossbeam_epoch::pin().flush());
                match &own {
                    Some(p) => drop(p.broadcast(collect)),
                    None => drop(rayon::broadcast(collect)),
                }
            }
        }
        in_hook(|| {
            let mut b = Body::default();
            b.viol = judge_leak(&seen, rounds, varied, *pool != Pool::Install && !kinds.iter().any(|k| is_par(k)));
            b.probe("rounds", rounds as u64);
            b.probe(if varied { "varied_data" } else { "same_data" }, 1);
            b.probe(["no_faults", "worker_panics", "bad_input", "io_errors"][bad.min(3) as usize], 1);
            for k in kinds {
                b.probe(&format!("op_{k}"), 1);
            }
            for k in lazy {
                b.probe(&format!("dropped_{k}"), 1);
            }
            if std::env::var_os("LSSIM_LEAK").is_some() {
                eprintln!("{kinds:?} {lazy:?} varied {varied} bad {bad} {:?}", seen);
            }
            b
        })
    });
    end_violation(&c)
}

fn is_par(k: &str) -> bool {
    matches!(k, "hullpar" | "ihullpar" | "contpar")
}

fn sched_period(p: usize) {
    crate::env::set_period(p);
}

fn judge_leak(seen: &[(usize, usize, usize, usize)], rounds: usize, varied: bool, exact: bool) -> Option<Viol> {
    let (half, last) = (rounds / 2, rounds - 2);
    if let Some(r) = seen.iter().position(|s| s.3 > 0) {
        return viol("descriptor-left-open", format!("after round {r} {} file descriptors are open", seen[r].3));
    }
    if seen[rounds - 1].2 > seen[half].2 + 1 {
        return viol("threads-left-running", format!("{} threads after round {half}, {} after round {}", seen[half].2, seen[rounds - 1].2, rounds - 1));
    }
    // memory: in how many rounds of the second half was something allocated that is still there?
    let kept: Vec<(usize, usize, usize)> = (half..last)
        .filter_map(|r| {
            let (b, y) = crate::env::alive(r + 1);
            (b > 0).then_some((r, b, y))
        })
        .collect();
    let enough = 9.max((last - half) / 4);
    if kept.len() >= enough {
        return viol(
            "memory-left-behind",
            format!("memory allocated in {} of the rounds {half}..{last} is still there after round {} (round, blocks, bytes): {:?}", kept.len(), rounds - 1, &kept[..3]),
        );
    }
    // the same calls, nobody else: not a single byte more
    if exact && !varied {
        let low = |r: std::ops::Range<usize>, f: fn(&(usize, usize, usize, usize)) -> usize| seen[r].iter().map(f).min().unwrap();
        for f in [(|s| s.0) as fn(&(usize, usize, usize, usize)) -> usize, |s| s.1] {
            let (x, y) = (low(rounds / 4..half, f), low(rounds * 3 / 4..rounds, f));
            if y > x {
                return viol("memory-grows", format!("the same calls again and again: {x} blocks or bytes in use early, {y} later"));
            }
        }
    }
    None
}

/// bytes a call may need beside its arguments and results: a fixed amount and so many times as much
/// as those take
const MEM_FIXED: usize = 1 << 20;
const MEM_FACTOR: usize = 32;

fn exec_scale(a: &mut Acc, case: &Case, install: bool, threads: u32, stack_kib: u32, jobs: &[Big]) -> Option<Viol> {
    let e = Env { hash_seed: case.hash_seed, fill: case.fill };
    let stack = (stack_kib as usize) << 10;
    let c = a.main(&case.sched, e, || {
        let dir = "/simfs/c";
        disk::mkdir_sim(dir);
        crate::ops::FRESH_BUFS.store(true, std::sync::atomic::Ordering::Relaxed);
        let ops: Vec<Op> = in_hook(|| jobs.iter().map(crate::scale::big_op).collect());
        let n = (threads as usize).max(1);
        let build = || rayon::ThreadPoolBuilder::new().num_threads(n).stack_size(stack);
        let own = if install { build().build().ok() } else { None };
        if own.is_none() {
            let _ = build().build_global();
        }
        sched::fault_fired(sched::F_STACK);
        let one = || {
            let mut seen: Vec<(usize, usize)> = in_hook(|| Vec::with_capacity(ops.len()));
            for op in &ops {
                let out = &crate::ops::OUTPUT;
                out.store(0, std::sync::atomic::Ordering::Relaxed);
                let before = crate::env::peak().0;
                crate::env::reset_peak();
                drop(run_op(op, dir));
                disk::remove_sim("/simfs/c/op.obj");
                seen.push((crate::env::peak().1.saturating_sub(before), out.load(std::sync::atomic::Ordering::Relaxed)));
            }
            seen
        };
        let seen = match &own {
            Some(p) => p.install(one),
            None => std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(stack).spawn_scoped(s, one).unwrap().join().unwrap()
            }),
        };
        let mut b = Body::default();
        for (i, (peak, words)) in seen.iter().enumerate() {
            let size = 24 * ops[i].pts.len() + 8 * ops[i].idx.len() + 8 * words;
            if *peak > MEM_FIXED + MEM_FACTOR * size && b.viol.is_none() {
                b.viol = viol(
                    "memory-out-of-proportion",
                    format!("{} needed {peak} bytes, its arguments and results take {size}: {:?}", jobs[i].k, jobs[i]),
                );
            }
            if std::env::var_os("LSSIM_SCALE").is_some() {
                eprintln!("SCALE {} {} {} {} {size} {peak} {:.1}", jobs[i].k, jobs[i].shape, jobs[i].edges, jobs[i].n, peak.saturating_sub(MEM_FIXED / 4) as f64 / size as f64);
            }
        }
        for (j, o) in jobs.iter().zip(&ops) {
            b.probe(&format!("op_{}", j.k), 1);
            b.probe("points", o.pts.len() as u64);
        }
        b.probe(if install { "in_pool_thread" } else { "in_own_thread" }, 1);
        b
    });
    match c.end {
        End::Signal(s) if s == libc::SIGSEGV || s == libc::SIGABRT || s == libc::SIGBUS => {
            viol("stack-exhausted", format!("the process died from signal {s} on threads with {stack_kib} KiB of stack"))
        }
        _ => end_violation(&c),
    }
}

fn head(v: &[u64]) -> &[u64] {
    &v[..v.len().min(12)]
}

/// one call of `f` with the stack some way further down
#[inline(never)]
fn deeper<T>(n: u64, f: &mut dyn FnMut() -> T) -> T {
    let mut pad = [n as u8; 80];
    std::hint::black_box(&mut pad);
    if n == 0 {
        return f();
    }
    let r = deeper(n - 1, f);
    std::hint::black_box(&mut pad);
    r
}

fn env_of(case: &Case, n: usize, envs: &[(u64, u32)]) -> (Sched, Env) {
    let (seed, fill) = envs[n];
    (Sched { ncpu: 1 + (n as u32 * 3) % 8, ..case.sched.clone() }, Env { hash_seed: seed, fill })
}

/// what a process does that runs the operations in environment `n`
fn env_body(n: usize, seed: u64, ops: &[Op], prefix: &[Op]) -> Body {
    sched::fault_fired(sched::F_HASH);
    disk::mkdir_sim("/simfs/c");
    let _ = rayon::ThreadPoolBuilder::new().num_threads(1 + n % 4).build_global();
    if n % 2 == 1 {
        crate::env::set_variables(if n == 1 { 6 } else { 1 + seed % 6 });
    }
    // move the heap around
    let mut r = crate::rng::Rng::new(seed);
    let mut keep: Vec<Vec<u8>> = vec![];
    for _ in 0..r.us(0, 40) {
        keep.push(Vec::with_capacity(r.us(1, 3000)));
    }
    for op in &prefix[..prefix.len().min(n)] {
        let _ = run_op(op, "/simfs/c");
    }
    // every environment runs the operations in another order
    let mut order: Vec<usize> = (0..ops.len()).collect();
    if n > 0 {
        r.shuffle(&mut order);
    }
    let mut out: Vec<Vec<u64>> = vec![vec![]; ops.len()];
    for k in order {
        disk::remove_sim("/simfs/c/op.obj");
        out[k] = deeper(r.below(24), &mut || run_op(&ops[k], "/simfs/c"));
    }
    drop(keep);
    // again on another thread: new per-thread hash keys, warm process
    let depth: Vec<u64> = ops.iter().map(|_| r.below(24)).collect();
    let rerun = || {
        ops.iter()
            .zip(&depth)
            .map(|(op, d)| {
                disk::remove_sim("/simfs/c/op.obj");
                deeper(*d, &mut || run_op(op, "/simfs/c"))
            })
            .collect::<Vec<_>>()
    };
    let again = match r.below(4) {
        // a thread of a pool
        0 => {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(r.us(1, 3)).build().expect("pool");
            pool.install(rerun)
        }
        k => std::thread::scope(|sc| {
            let mut t = std::thread::Builder::new();
            if k == 1 {
                t = t.name("worker".into());
            }
            t.spawn_scoped(sc, rerun).expect("thread").join().unwrap()
        }),
    };
    let mut b = Body::default();
    if let Some(k) = (0..ops.len()).find(|k| out[*k] != again[*k]) {
        b.viol = viol(
            "result-not-reproducible",
            format!("{} gave {:x?} and then {:x?} in the same process: {:?}", ops[k].k, head(&out[k]), head(&again[k]), ops[k]),
        );
    }
    if n == 0 {
        for o in ops {
            b.probe(&format!("op_{}", o.k), 1);
        }
    }
    // summarise to keep the result small
    b.out = out.into_iter().map(|v| vec![v.iter().fold(7, |h, x| crate::rng::mix(h, *x)), v.len() as u64]).collect();
    b
}

/// continues in a program image at other addresses (see `Runner::child`)
pub fn inner(fd: i32) -> i32 {
    let shm = crate::shm::Shm::map(fd);
    let (n, case): (usize, Case) = serde_json::from_str(&shm.message()).expect("case");
    if let Work::Env { ops, envs, prefix } = &case.work {
        let (s, e) = env_of(&case, n, envs);
        crate::runner::run_body(shm, &s, e, || {
            let mut b = env_body(n, e.hash_seed, ops, prefix);
            b.probe("processes_with_code_and_statics_at_other_addresses", 1);
            b
        })
    }
    2
}

fn exec_env(a: &mut Acc, case: &Case, ops: &[Op], envs: &[(u64, u32)], prefix: &[Op]) -> Option<Viol> {
    let mut first: Option<Vec<Vec<u64>>> = None;
    for n in 0..envs.len() {
        let (s, e) = env_of(case, n, envs);
        let image = (n == 2).then(|| (serde_json::to_string(&(n, case)).unwrap(), e.hash_seed));
        let c = a.main_at(&s, e, image, || env_body(n, e.hash_seed, ops, prefix));
        if let Some(v) = end_violation(&c) {
            return Some(v);
        }
        match &first {
            None => first = Some(c.body.out),
            Some(f) => {
                if let Some(k) = (0..ops.len()).find(|k| f[*k] != c.body.out[*k]) {
                    return viol(
                        "result-not-reproducible",
                        format!(
                            "{} depends on the environment (hash seed {:x} against {:x}): {:?}",
                            ops[k].k, envs[0].0, e.hash_seed, ops[k]
                        ),
                    );
                }
            }
        }
    }
    None
}

// ------------------------------------------------------------------ OBJ files

macro_rules! by_vt3 {
    ($vt:expr, $f:ident, $($a:expr),*) => {
        match $vt {
            0 => $f::<SimVec3<f64>>($($a),*),
            1 => $f::<SimVec3<f32>>($($a),*),
            2 => $f::<vector_traits::glam::DVec3>($($a),*),
            _ => $f::<vector_traits::glam::Vec3>($($a),*),
        }
    };
}

fn save<T: GenericVector3>(path: &str, o: &Obj) -> Call<Result<(), LinestringError>>
where
    T::Scalar: Sc,
{
    let lines: Vec<Vec<Line3<T>>> = in_hook(|| {
        let p = |c: &[f64; 3]| T::new_3d(T::Scalar::of(c[0]), T::Scalar::of(c[1]), T::Scalar::of(c[2]));
        o.lines.iter().map(|l| l.iter().map(|s| Line3::new(p(&s[0]), p(&s[1]))).collect()).collect()
    });
    call(|| save_to_obj_file(path, &o.name, &lines))
}

fn do_save(path: &str, o: &Obj) -> Call<Result<(), LinestringError>> {
    by_vt3!(o.vt, save, path, o)
}

/// does the file describe exactly these segments?  (the check reads it the way an OBJ reader does)
fn judge_obj(o: &Obj, data: &[u8]) -> Result<(), String> {
    let f32t = matches!(o.vt, 1 | 3);
    let text = std::str::from_utf8(data).map_err(|_| "not text".to_string())?;
    if !text.ends_with('\n') {
        return Err("the last line is not complete".into());
    }
    let mut names = vec![];
    let mut v: Vec<[u64; 3]> = vec![];
    let mut l: Vec<(usize, usize)> = vec![];
    for (n, line) in text.lines().enumerate() {
        if let Some(x) = line.strip_prefix("o ") {
            names.push(x.to_string());
            continue;
        }
        if line == "o" {
            names.push(String::new());
            continue;
        }
        let line = line.split('#').next().unwrap();
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        match w[0] {
            "v" if w.len() == 4 => {
                let mut c = [0u64; 3];
                for i in 0..3 {
                    c[i] = if f32t {
                        w[i + 1].parse::<f32>().map_err(|e| format!("line {n}: {e}"))?.to_bits() as u64
                    } else {
                        w[i + 1].parse::<f64>().map_err(|e| format!("line {n}: {e}"))?.to_bits()
                    };
                }
                v.push(c);
            }
            "l" if w.len() == 3 => {
                let mut c = [0usize; 2];
                for i in 0..2 {
                    c[i] = w[i + 1].parse::<usize>().map_err(|e| format!("line {n}: {e}"))?;
                    if c[i] == 0 || c[i] > v.len() {
                        return Err(format!("line {n}: vertex {} of {} referenced", c[i], v.len()));
                    }
                }
                l.push((c[0] - 1, c[1] - 1));
            }
            _ => return Err(format!("line {n} is not understood: {line:?}")),
        }
    }
    if names.len() != 1 || names[0].trim_end() != o.name.trim_end() {
        return Err(format!("object names {names:?}, expected {:?}", o.name));
    }
    let bits = |p: &[f64; 3]| -> [u64; 3] {
        let b = |c: f64| if f32t { (c as f32).to_bits() as u64 } else { c.to_bits() };
        [b(p[0]), b(p[1]), b(p[2])]
    };
    let want: Vec<([u64; 3], [u64; 3])> = o.lines.iter().flatten().map(|s| (bits(&s[0]), bits(&s[1]))).collect();
    if l.len() != want.len() {
        return Err(format!("{} segments in the file, {} were saved", l.len(), want.len()));
    }
    for (i, (w, g)) in want.iter().zip(&l).enumerate() {
        if v[g.0] != w.0 || v[g.1] != w.1 {
            return Err(format!("segment {i} differs"));
        }
    }
    let mut s = v.clone();
    s.sort_unstable();
    if s.windows(2).any(|w| w[0] == w[1]) {
        return Err("a vertex is written twice".into());
    }
    let mut used = vec![false; v.len()];
    for (a, b) in &l {
        used[*a] = true;
        used[*b] = true;
    }
    if used.contains(&false) {
        return Err("a vertex that no segment uses is written".into());
    }
    Ok(())
}

fn prepare(path: &str, old: &Option<String>, others: &[FileImg]) {
    disk::restore(others);
    if let Some(o) = old {
        disk::put(path, o.as_bytes());
    }
}

fn others_touched(others: &[FileImg], now: &[FileImg]) -> Option<String> {
    for o in others {
        match now.iter().find(|n| n.path == o.path) {
            None => return Some(format!("{} was removed", o.path)),
            Some(n) if n.data != o.data => return Some(format!("{} was changed", o.path)),
            _ => {}
        }
    }
    None
}

fn resolve(plan: &Plan, calls: u32) -> Plan {
    let mut p = plan.clone();
    p.at = plan
        .at
        .iter()
        .map(|(pm, f)| (1 + (*pm as u64 * calls as u64 / 1000).min(calls.max(1) as u64 - 1) as u32, f.clone()))
        .collect();
    p
}

fn exec_save(a: &mut Acc, case: &Case, obj: &Obj, path: &str, old: &Option<String>, plan: &Plan, others: &[FileImg], retries: u32) -> Option<Viol> {
    let e = Env { hash_seed: case.hash_seed, fill: case.fill };
    // a run without faults: how many calls does it make, what does it write?
    let good_path = "/simfs/clean.obj";
    let c0 = a.aux(&case.sched, e, || {
        disk::arm(&Plan::default());
        disk::put(good_path, b"");
        let r = do_save(good_path, obj);
        in_hook(|| {
            let mut b = Body::default();
            match r {
                Call::Ret(Ok(())) => {}
                Call::Ret(Err(e)) => b.viol = viol("spurious-error", format!("saving failed without any fault: {e:?}")),
                Call::Injected => b.viol = viol("stray-panic", ""),
                Call::Panic(p) => b.viol = viol("panic", p),
            }
            b.out = vec![vec![disk::calls() as u64]];
            let data = disk::get(good_path).unwrap_or_default();
            if b.viol.is_none() {
                if let Err(m) = judge_obj(obj, &data) {
                    b.viol = viol("wrong-file", format!("{m}; file: {:?}", String::from_utf8_lossy(&data[..data.len().min(400)])));
                }
            }
            b.text = vec![data.iter().map(|c| *c as char).collect()];
            b
        })
    });
    if let Some(v) = end_violation(&c0) {
        return Some(v);
    }
    let calls = c0.body.out[0][0] as u32;
    let full: Vec<u8> = c0.body.text[0].chars().map(|c| c as u32 as u8).collect();
    let p = resolve(plan, calls);
    let crashes = p.at.iter().any(|x| matches!(x.1, Fault::CrashAfter | Fault::CrashBefore | Fault::Torn(_)));
    let watch = case.property == "C09";
    let mut base: Vec<FileImg> = others.to_vec();
    base.sort_by(|x, y| x.path.cmp(&y.path));
    let benign = |d: &[disk::Op]| -> String {
        d.iter().rev().take(6).rev().map(|o| format!("{} {} -> {}", o.what, o.arg, o.ret)).collect::<Vec<_>>().join("; ")
    };
    let after = |b: &mut Body, what: &str| {
        // checks on a completed save
        let data = disk::get(path);
        match &data {
            None => b.viol = viol("file-missing", format!("{what}: Ok, but there is no file")),
            Some(d) => {
                if let Err(m) = judge_obj(obj, d) {
                    b.viol = viol(
                        "ok-but-wrong-file",
                        format!("{what}: Ok, but {m} ({} bytes, complete: {}); calls: {}", d.len(), full.len(), benign(&disk::log())),
                    );
                }
            }
        }
        if b.viol.is_none() {
            if let Some(m) = others_touched(&base, &disk::image()) {
                b.viol = viol("other-file-touched", m);
            }
        }
        if b.viol.is_none() && disk::open_fds() != 0 {
            b.viol = viol("descriptor-leak", format!("{} file descriptors are still open", disk::open_fds()));
        }
        if b.viol.is_none() && disk::cwd_changed() {
            b.viol = viol("working-directory-changed", what.to_string());
        }
    };
    let apath = disk::abs(path);
    let c = a.main(&case.sched, e, || {
        let dir = path.rsplit_once('/').map_or("", |x| x.0);
        if !dir.contains("missing") {
            disk::mkdir_sim(dir);
        }
        if path.ends_with("/isdir.obj") {
            disk::mkdir_sim(path);
        }
        prepare(path, old, others);
        disk::arm(&p);
        if watch {
            disk::watch(path, old.as_ref().map(|o| o.as_bytes().to_vec()), full.clone());
        }
        let r = do_save(path, obj);
        in_hook(|| {
            let mut b = Body::default();
            let (bad, checked) = disk::unwatch();
            b.probe("file_states_checked", checked);
            if let Some(m) = bad {
                b.viol = viol("torn-file", m);
                return b;
            }
            let inj = disk::injected();
            let unusable = dir.contains("missing") || path.ends_with("/isdir.obj");
            match r {
                Call::Ret(Ok(())) => {
                    if let Some(x) = inj.first() {
                        b.viol = viol(
                            "error-swallowed",
                            format!("errno {x} was returned to the library, but the save reported success; calls: {}", benign(&disk::log())),
                        );
                    } else {
                        after(&mut b, "save");
                        b.probe("saves_completed", 1);
                    }
                }
                Call::Ret(Err(er)) => {
                    b.probe("saves_failed", 1);
                    match inj.first() {
                        // the library noticed before it asked the operating system for the file
                        None if unusable && matches!(er, LinestringError::IoError(_)) => {}
                        None => b.viol = viol("spurious-error", format!("no fault that has to be reported was injected, but: {er:?}; calls: {}", benign(&disk::log()))),
                        Some(x) => match &er {
                            LinestringError::IoError(io) => {
                                let same = if *x == 0 {
                                    io.kind() == std::io::ErrorKind::WriteZero
                                } else {
                                    io.raw_os_error() == Some(*x)
                                };
                                if !same {
                                    b.viol = viol("wrong-error", format!("errno {x} was injected first, reported was {er:?}"));
                                }
                            }
                            _ => b.viol = viol("wrong-error", format!("errno {x} was injected, reported was {er:?}")),
                        },
                    }
                    if b.viol.is_none() {
                        if let Some(m) = others_touched(&base, &disk::image()) {
                            b.viol = viol("other-file-touched", m);
                        }
                    }
                    if b.viol.is_none() && disk::open_fds() != 0 {
                        b.viol = viol("descriptor-leak", format!("{} file descriptors are still open", disk::open_fds()));
                    }
                }
                Call::Injected => b.viol = viol("stray-panic", ""),
                Call::Panic(m) => b.viol = viol("panic", format!("the save panicked: {m}; calls: {}", benign(&disk::log()))),
            }
            // once the faults are gone a retry works
            if b.viol.is_none() && !unusable {
                for k in 0..retries {
                    disk::disarm();
                    match do_save(path, obj) {
                        Call::Ret(Ok(())) => after(&mut b, "retry"),
                        Call::Ret(Err(e)) => b.viol = viol("retry-failed", format!("retry {k} without faults: {e:?}")),
                        _ => b.viol = viol("panic", "the retry panicked"),
                    }
                    if b.viol.is_some() {
                        break;
                    }
                    b.probe("retries_completed", 1);
                }
            }
            b
        })
    });
    if let Some(v) = end_violation(&c) {
        return Some(v);
    }
    if c.end == End::Crashed || crashes {
        if c.end != End::Crashed {
            return None;
        }
        let msg = a.r.shm.message();
        if !msg.is_empty() {
            return viol("torn-file", msg);
        }
        let img: Vec<FileImg> = serde_json::from_str(&c.image.clone().unwrap_or_default()).unwrap_or_default();
        let cur = img.iter().find(|f| f.path == apath).map(|f| f.data.clone());
        let fulls: String = full.iter().map(|b| *b as char).collect();
        let ok = match (&cur, old) {
            (None, o) => o.is_none(),
            (Some(c), o) => fulls.starts_with(c.as_str()) || o.as_ref() == Some(c),
        };
        if !ok {
            return viol(
                "crash-corrupts",
                format!("after the crash the file is neither old nor a prefix of the new content: {:?}", cur.map(|c| c.chars().take(200).collect::<String>())),
            );
        }
        if let Some(m) = others_touched(&base, &img) {
            return viol("other-file-touched", format!("after a crash {m}"));
        }
        *a.r.stats.probes.entry("crashes_checked".into()).or_default() += 1;
        if cur.as_ref().is_some_and(|c| !c.is_empty() && c.len() < fulls.len() && Some(c) != old.as_ref()) {
            *a.r.stats.probes.entry("crashes_leaving_a_partial_file".into()).or_default() += 1;
        }
        // restart: a new process with only the surviving files saves again
        let c2 = a.aux(&case.sched, e, || {
            let dir = path.rsplit_once('/').map_or("", |x| x.0);
            disk::mkdir_sim(dir);
            disk::restore(&img);
            disk::disarm();
            let r = do_save(path, obj);
            in_hook(|| {
                let mut b = Body::default();
                match r {
                    Call::Ret(Ok(())) => after(&mut b, "save after restart"),
                    Call::Ret(Err(e)) => b.viol = viol("retry-failed", format!("after the restart: {e:?}")),
                    _ => b.viol = viol("panic", "after the restart"),
                }
                b.probe("restarts_completed", 1);
                b
            })
        });
        return end_violation(&c2);
    }
    None
}

fn exec_saves(a: &mut Acc, case: &Case, objs: &[Vec<Obj>], plan: &Plan, old: &[Option<String>], paths: &[String], scope: bool, threads: u32) -> Option<Viol> {
    let e = Env { hash_seed: case.hash_seed, fill: case.fill };
    let pool = if scope { Pool::Scope(objs.len() as u32) } else { Pool::Callers(objs.len() as u32) };
    let body = |p: &Plan| {
        let paths: Vec<String> =
            (0..objs.len()).map(|i| paths.get(i).cloned().unwrap_or_else(|| format!("/simfs/out{i}.obj"))).collect();
        for p in &paths {
            // every directory above the file
            let p = disk::abs(p);
            for (k, _) in p.match_indices('/').skip(2) {
                disk::mkdir_sim(&p[..k]);
            }
        }
        for (i, o) in old.iter().enumerate() {
            if let (Some(o), Some(p)) = (o, paths.get(i)) {
                disk::put(p, o.as_bytes());
            }
        }
        let sentinel = vec![FileImg { path: "/simfs/keep.txt".into(), data: "do not touch".into() }];
        disk::restore(&sentinel);
        disk::arm(p);
        let rs = with_pool(&pool, threads, objs.len(), &|i| -> (Option<Viol>, u32) {
            let mut errs = 0;
            for (k, o) in objs[i].iter().enumerate() {
                let v = match do_save(&paths[i], o) {
                    Call::Ret(Ok(())) => in_hook(|| {
                        judge_obj(o, &disk::get(&paths[i]).unwrap_or_default()).err().and_then(|m| {
                            viol("concurrent-save-corrupts", format!("caller {i}, save {k} returned Ok, but {m}"))
                        })
                    }),
                    Call::Ret(Err(LinestringError::IoError(_))) => {
                        errs += 1;
                        None
                    }
                    Call::Ret(Err(e)) => viol("wrong-error", format!("{e:?}")),
                    Call::Injected => viol("stray-panic", ""),
                    Call::Panic(p) => viol("panic", p),
                };
                if v.is_some() {
                    return (v, errs);
                }
            }
            (None, errs)
        });
        in_hook(|| {
            let mut b = Body::default();
            let errs: u32 = rs.iter().map(|r| r.1).sum();
            b.viol = rs.into_iter().filter_map(|r| r.0).next();
            let inj = disk::injected();
            if b.viol.is_none() && (inj.is_empty()) != (errs == 0) {
                b.viol = viol("error-misdirected", format!("{} faults injected, {errs} saves failed", inj.len()));
            }
            if b.viol.is_none() && errs > inj.len() as u32 {
                b.viol = viol("error-misdirected", format!("{} faults injected, {errs} saves failed", inj.len()));
            }
            if b.viol.is_none() && errs == 0 {
                for (i, p) in paths.iter().enumerate() {
                    if let (Some(o), Some(d)) = (objs[i].last(), disk::get(p)) {
                        if let Err(m) = judge_obj(o, &d) {
                            b.viol = viol("concurrent-save-corrupts", format!("the final file of caller {i}: {m}"));
                        }
                    }
                }
            }
            let now = disk::image();
            if b.viol.is_none() {
                if let Some(m) = others_touched(&sentinel, &now) {
                    b.viol = viol("other-file-touched", m);
                }
            }
            if b.viol.is_none() && disk::open_fds() != 0 {
                b.viol = viol("descriptor-leak", format!("{} file descriptors are still open", disk::open_fds()));
            }
            if b.viol.is_none() && disk::cwd_changed() {
                b.viol = viol("working-directory-changed", "");
            }
            b.out = vec![vec![disk::calls() as u64]];
            let tids: Vec<usize> = disk::log().iter().map(|o| o.tid).collect();
            b.probe("fs_call_thread_changes", tids.windows(2).filter(|w| w[0] != w[1]).count() as u64);
            b.probe("saves", objs.iter().map(|o| o.len() as u64).sum());
            b
        })
    };
    let mut p = plan.clone();
    if !plan.at.is_empty() {
        let c = a.aux(&case.sched, e, || body(&Plan { at: vec![], ..plan.clone() }));
        if let Some(v) = end_violation(&c) {
            return Some(v);
        }
        p = resolve(plan, c.body.out[0][0] as u32);
    }
    let c = a.main(&case.sched, e, || body(&p));
    end_violation(&c)
}

fn exec_work(case: &Case, a: &mut Acc) -> Option<Viol> {
    match &case.work {
        Work::Par { pool, threads, jobs } => exec_par(a, case, pool, *threads, jobs),
        Work::NonFinite { pool, threads, job, bad, bad_selected } => {
            exec_nonfinite(a, case, pool, *threads, job, bad, *bad_selected)
        }
        Work::Panic { pool, threads, job, other, at, bad_index, rounds } => {
            exec_panic(a, case, pool, *threads, job, other, *at, bad_index, *rounds)
        }
        Work::Conc { pool, threads, callers, panic_at } => exec_conc(a, case, pool, *threads, callers, *panic_at),
        Work::Leak { pool, threads, rounds, kinds, lazy, seed, max, varied, bad } => {
            exec_leak(a, case, pool, *threads, *rounds, kinds, lazy, *seed, *max, *varied, *bad)
        }
        Work::Scale { install, threads, stack_kib, jobs } => {
            exec_scale(a, case, *install, *threads, *stack_kib, jobs)
        }
        Work::Lazy { pool, threads, tasks, callers } => exec_lazy(a, case, pool, *threads, tasks, callers),
        Work::Env { ops, envs, prefix } => exec_env(a, case, ops, envs, prefix),
        Work::Save { obj, path, old, plan, others, retries } => {
            exec_save(a, case, obj, path, old, plan, others, *retries)
        }
        Work::Saves { objs, plan, old, paths, scope, threads } => {
            exec_saves(a, case, objs, plan, old, paths, *scope, *threads)
        },
    }
}
