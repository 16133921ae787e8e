//! Things the library hands out and the caller advances: iterators, builders, accumulators, and
//! calls during which the library runs code of the caller.  A task is advanced step by step; the
//! steps of several tasks are interleaved, continued on other threads, or never finished.
use crate::ops::{run_op, Op, OpSc, D};
use crate::sched::in_hook;
use crate::simvec::*;
use linestring::linestring_2d::{
    indexed_intersection::IntersectionTester, intersection::IntersectionData, Aabb2, Line2, LineString2, SimpleAffine,
    VoronoiParabolicArc,
};
use linestring::linestring_3d::{Aabb3, Line3, LineString3};
use serde::{Deserialize, Serialize};

pub const LAZY_KINDS: &[&str] = &[
    "win2", "win3", "chunk2", "chunk3", "disc2", "disc3", "sweep", "isweep", "sweep", "isweep", "apply2", "apply3", "lineapply",
    "aabb2", "aabb3", "boxapply", "affine", "arc",
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Task {
    /// kind (one of LAZY_KINDS), scalar type and data
    pub op: Op,
    /// the data is handed over in this many pieces (1: at once)
    pub pieces: usize,
    /// a call of the library made by the caller's code that the library runs
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub nested: Option<Op>,
    /// at which item the nested call or the panic happens
    #[serde(default)]
    pub at: usize,
    /// the caller's code panics there
    #[serde(default)]
    pub panics: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    Step { task: usize, n: usize },
    Drop { task: usize },
    Call { op: Op },
}

pub struct CallerPanic;
const CALLER: &str = "the caller's code panics";

fn is_caller(p: &(dyn std::any::Any + Send)) -> bool {
    p.is::<CallerPanic>()
        || p.downcast_ref::<&str>().is_some_and(|s| *s == CALLER)
        || p.downcast_ref::<String>().is_some_and(|s| s == CALLER)
}

/// what the caller's code does while the library runs it
pub struct Inside {
    pub nested: Option<Op>,
    pub at: usize,
    pub panics: bool,
    pub dir: String,
    /// digests of nested calls
    pub seen: Vec<Vec<u64>>,
    pub fired: bool,
    /// what is wrong with the data the panicking call left behind
    pub mangled: Option<String>,
}

/// after a panic of the caller's closure every point is still there, transformed or not
fn mangled<P: PartialEq + std::fmt::Debug>(old: &[P], new: &[P], f: impl Fn(&P) -> P) -> Option<String> {
    if old.len() != new.len() {
        return Some(format!("{} points before, {} points after the panic", old.len(), new.len()));
    }
    (0..old.len())
        .find(|i| new[*i] != old[*i] && new[*i] != f(&old[*i]))
        .map(|i| format!("point {i} was {:?} and is {:?} after the panic", old[i], new[i]))
}

impl Inside {
    fn item(&mut self, k: usize) {
        if k == self.at {
            if let Some(op) = &self.nested {
                let g = run_op(op, &self.dir);
                in_hook(|| self.seen.push(g));
            }
            if self.panics {
                self.fired = true;
                match k % 3 {
                    0 => std::panic::panic_any(CALLER),
                    1 => std::panic::panic_any(CALLER.to_string()),
                    _ => std::panic::panic_any(CallerPanic),
                }
            }
        }
    }
}

type Step = Box<dyn FnMut(&mut D, &mut Inside) -> bool + Send>;

pub struct Live {
    step: Step,
    pub inside: Inside,
    pub done: bool,
    pub steps: usize,
    pub panicked: bool,
}

impl Live {
    pub fn new(t: &Task, dir: &str) -> Live {
        let step = if t.op.s == 32 { build::<f32>(t) } else { build::<f64>(t) };
        Live {
            step,
            inside: Inside { nested: t.nested.clone(), at: t.at, panics: t.panics, dir: dir.into(), seen: vec![], fired: false, mangled: None },
            done: false,
            steps: 0,
            panicked: false,
        }
    }
    /// one step; its digest, or None if the task is finished
    pub fn step(&mut self) -> Option<Vec<u64>> {
        if self.done {
            return None;
        }
        let mut d = D(Vec::with_capacity(16));
        let Live { step, inside, .. } = self;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&mut d, inside))) {
            Ok(more) => self.done = !more,
            Err(p) => {
                self.done = true;
                self.panicked = is_caller(&*p);
                if !self.panicked {
                    d.0.push(0xDEAD);
                }
            }
        }
        self.steps += 1;
        Some(d.done())
    }
}

fn pos<S: Sc>(v: S) -> S {
    v + S::ZERO
}

/// an iterator together with the data it borrows
struct Own<I, V> {
    it: I, // dropped first
    _data: Box<V>,
}

impl<I, V> Own<I, V> {
    /// (a method, so that closures capture the whole of it)
    fn it(&mut self) -> &mut I {
        &mut self.it
    }
}

fn own<V: 'static, I>(v: V, f: impl FnOnce(&'static V) -> I) -> Own<I, V> {
    let data = Box::new(v);
    let it = f(unsafe { &*(&*data as *const V) });
    Own { it, _data: data }
}

/// `n` ranges that cover 0..len
fn ranges(len: usize, n: usize) -> Vec<std::ops::Range<usize>> {
    let n = n.clamp(1, len.max(1));
    (0..n).map(|i| len * i / n..len * (i + 1) / n).collect()
}

fn build<S: OpSc>(t: &Task) -> Step
where
    usize: vector_traits::num_traits::AsPrimitive<S>,
{
    let op = t.op.clone();
    let pieces = t.pieces;
    let v3: Vec<SimVec3<S>> =
        op.pts.iter().map(|p| SimVec3 { x: pos(S::of(p[0])), y: pos(S::of(p[1])), z: pos(S::of(p[2])) }).collect();
    let v2: Vec<SimVec2<S>> = v3.iter().map(|p| SimVec2 { x: p.x, y: p.y }).collect();
    let p = S::of(op.p);
    match op.k.as_str() {
        "win2" => {
            let mut o = own(v2, |v| v.window_iter());
            Box::new(move |d, _| {
                let it = o.it();
                d.u(it.len());
                it.next().map(|l| (d.v2(l.start), d.v2(l.end))).is_some()
            })
        }
        "win3" => {
            let mut o = own(v3, |v| v.window_iter());
            Box::new(move |d, _| {
                let it = o.it();
                d.u(it.len());
                d.b(it.is_empty());
                it.next().map(|l| (d.v3(l.start), d.v3(l.end))).is_some()
            })
        }
        "chunk2" => {
            let mut o = own(v2, |v| v.chunk_iter());
            Box::new(move |d, _| {
                let it = o.it();
                d.u(it.len());
                d.l2(it.remainder());
                it.next().map(|l| (d.v2(l.start), d.v2(l.end))).is_some()
            })
        }
        "chunk3" => {
            let mut o = own(v3, |v| v.chunk_iter());
            Box::new(move |d, _| {
                let it = o.it();
                d.u(it.len());
                d.l3(it.remainder());
                it.next().map(|l| (d.v3(l.start), d.v3(l.end))).is_some()
            })
        }
        "disc2" => {
            let mut o = own(v2, |v| v.discretize(p * S::of(10.0)));
            Box::new(move |d, _| o.it().next().map(|q| d.v2(q)).is_some())
        }
        "disc3" => {
            let mut o = own(v3, |v| v.discretize(p * S::of(10.0)));
            Box::new(move |d, _| o.it().next().map(|q| d.v3(q)).is_some())
        }
        "sweep" => {
            let lines: Vec<Line2<SimVec2<S>>> = v2.chunks_exact(2).map(|c| Line2::new(c[0], c[1])).collect();
            let (ignore, stop) = (op.n % 2 == 0, op.n % 5 == 0);
            let mut b: Option<IntersectionData<SimVec2<S>>> = None;
            let mut it: Option<Box<dyn Iterator<Item = (SimVec2<S>, Vec<usize>)> + Send>> = None;
            let mut k = 0;
            Box::new(move |d, inside| {
                k += 1;
                match k {
                    1 => {
                        let late = pieces % 2 == 0;
                        let mut x = IntersectionData::<SimVec2<S>>::default();
                        let flags = |x: IntersectionData<SimVec2<S>>| {
                            x.with_ignore_end_point_intersections(ignore)?.with_stop_at_first_intersection(stop)
                        };
                        if !late {
                            x = flags(x).unwrap();
                        }
                        for r in ranges(lines.len(), pieces) {
                            let from = r.start;
                            let r = x.with_lines(lines[r].iter().enumerate().map(|(i, l)| {
                                inside.item(from + i);
                                *l
                            }));
                            match r {
                                Ok(y) => x = y,
                                Err(e) => {
                                    d.e(&e);
                                    return false;
                                }
                            }
                        }
                        if late {
                            x = flags(x).unwrap();
                        }
                        d.u(x.get_lines().len());
                        b = Some(x);
                        true
                    }
                    2 => match b.take().unwrap().compute() {
                        Ok(i) => {
                            d.u(i.len());
                            it = Some(Box::new(i));
                            true
                        }
                        Err(e) => {
                            d.e(&e);
                            false
                        }
                    },
                    _ => it.as_mut().unwrap().next().map(|(q, l)| (d.v2(q), d.ls(&l))).is_some(),
                }
            })
        }
        "isweep" => {
            let e: Vec<(usize, usize)> = op.idx.chunks_exact(2).map(|c| (c[0], c[1])).collect();
            let (ignore, stop) = (op.n % 2 == 0, op.n % 5 == 0);
            let mut b: Option<IntersectionTester<SimVec2<S>>> = None;
            let mut it: Option<Box<dyn Iterator<Item = (usize, Vec<usize>)> + Send>> = None;
            let mut k = 0;
            Box::new(move |d, inside| {
                k += 1;
                match k {
                    1 => {
                        let late = pieces % 2 == 0;
                        let mut x = IntersectionTester::<SimVec2<S>>::new(v2.clone());
                        let flags = |x: IntersectionTester<SimVec2<S>>| {
                            x.with_ignore_end_point_intersections(ignore)?.with_stop_at_first_intersection(stop)
                        };
                        if !late {
                            x = flags(x).unwrap();
                        }
                        for r in ranges(e.len(), pieces) {
                            let from = r.start;
                            let r = x.with_edges(e[r].iter().enumerate().map(|(i, l)| {
                                inside.item(from + i);
                                l
                            }));
                            match r {
                                Ok(y) => x = y,
                                Err(e) => {
                                    d.e(&e);
                                    return false;
                                }
                            }
                        }
                        if late {
                            x = flags(x).unwrap();
                        }
                        for l in x.get_lines() {
                            d.u(l.0);
                            d.u(l.1);
                        }
                        b = Some(x);
                        true
                    }
                    2 => match b.take().unwrap().compute() {
                        Ok((v, i)) => {
                            d.l2(&v);
                            d.u(i.len());
                            it = Some(Box::new(i));
                            true
                        }
                        Err(e) => {
                            d.e(&e);
                            false
                        }
                    },
                    _ => it.as_mut().unwrap().next().map(|(q, l)| (d.u(q), d.ls(&l))).is_some(),
                }
            })
        }
        "apply2" => {
            let mut v = v2;
            let mut k = 0;
            Box::new(move |d, inside| {
                let old = v.clone();
                let c = std::cell::RefCell::new((0usize, inside));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.apply(&|q| {
                    let mut c = c.borrow_mut();
                    let i = c.0;
                    c.0 += 1;
                    c.1.item(i);
                    q + SimVec2 { x: p, y: S::ONE }
                })));
                if let Err(e) = r {
                    let c = c.into_inner();
                    c.1.mangled = in_hook(|| mangled(&old, &v, |q: &SimVec2<S>| *q + SimVec2 { x: p, y: S::ONE }));
                    std::panic::resume_unwind(e);
                }
                d.l2(&v);
                k += 1;
                k < 3
            })
        }
        "apply3" => {
            let mut v = v3;
            let mut k = 0;
            Box::new(move |d, inside| {
                let old = v.clone();
                let c = std::cell::RefCell::new((0usize, inside));
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.apply(&|q| {
                    let mut c = c.borrow_mut();
                    let i = c.0;
                    c.0 += 1;
                    c.1.item(i);
                    q * S::TWO
                })));
                if let Err(e) = r {
                    let c = c.into_inner();
                    c.1.mangled = in_hook(|| mangled(&old, &v, |q: &SimVec3<S>| *q * S::TWO));
                    std::panic::resume_unwind(e);
                }
                d.l3(&v);
                k += 1;
                k < 3
            })
        }
        "lineapply" => {
            let mut k = 0;
            Box::new(move |d, inside| {
                let c = std::cell::RefCell::new((0usize, inside));
                let l = Line3::new(v3[k], v3[k + 1]).apply(|q| {
                    let mut c = c.borrow_mut();
                    let i = c.0;
                    c.0 += 1;
                    c.1.item(i);
                    q * S::TWO
                });
                d.v3(l.start);
                d.v3(l.end);
                k += 1;
                k + 1 < v3.len()
            })
        }
        "aabb2" => {
            let mut b = Aabb2::<SimVec2<S>>::default();
            let mut k = 0;
            // after every quarter of the points the box is compared
            Box::new(move |d, _| {
                let r = ranges(v2.len(), 4.min(v2.len()))[k].clone();
                let part = &v2[r];
                match pieces {
                    1 => b.update_with_points(part),
                    2 => part.iter().for_each(|q| b.update_with_point(*q)),
                    3 => b.update_with_aabb(Aabb2::with_points(part)),
                    4 => b.update_with_aabb(Aabb2::from(part.iter())),
                    _ => part.chunks(pieces - 3).for_each(|c| b.update_with_points(c)),
                }
                d.ov2(b.low());
                d.ov2(b.high());
                d.ov2(b.center());
                d.b(b.contains_point_inclusive(v2[k]));
                k += 1;
                k < 4.min(v2.len())
            })
        }
        "aabb3" => {
            let mut b = Aabb3::<SimVec3<S>>::default();
            let mut k = 0;
            Box::new(move |d, _| {
                let r = ranges(v3.len(), 4.min(v3.len()))[k].clone();
                let part = &v3[r];
                match pieces {
                    1 => b.update_with_points(part),
                    2 => part.iter().for_each(|q| b.update_with_point(*q)),
                    3 => b.update_with_aabb(Aabb3::with_points(part)),
                    _ => part.chunks(pieces).for_each(|c| b.update_with_points(c)),
                }
                for q in [b.get_low(), b.get_high(), b.center()].into_iter().flatten() {
                    d.v3(q);
                }
                k += 1;
                k < 4.min(v3.len())
            })
        }
        "boxapply" => {
            let mut b2 = Aabb2::with_points(&v2);
            let mut b3 = Aabb3::with_points(&v3);
            let mut k = 0;
            Box::new(move |d, inside| {
                let c = std::cell::RefCell::new((0usize, inside));
                let tick = || {
                    let mut c = c.borrow_mut();
                    let i = c.0;
                    c.0 += 1;
                    c.1.item(i);
                };
                b2.apply(&|q| {
                    tick();
                    q + SimVec2 { x: p, y: S::ONE }
                });
                b3.apply(&|q| {
                    tick();
                    q * S::TWO
                });
                d.ov2(b2.low());
                d.ov2(b2.high());
                for q in [b3.get_low(), b3.get_high()].into_iter().flatten() {
                    d.v3(q);
                }
                k += 1;
                k < 3
            })
        }
        "affine" => {
            let h = v2.len() / 2;
            let a = Aabb2::with_points(&v2[..h.max(1)]);
            let b = Aabb2::with_points(&v2[h..]);
            let t = SimpleAffine::new(&a, &b);
            let mut k = 0;
            Box::new(move |d, _| match &t {
                Err(e) => {
                    d.e(e);
                    false
                }
                Ok(t) => {
                    d.res(t.transform_ab(v2[k]), |d, v| d.v2(v));
                    d.res(t.transform_ba(v2[k]), |d, v| d.v2(v));
                    k += 1;
                    k < v2.len()
                }
            })
        }
        _ => {
            let a = crate::ops::arc_ok(&v2).then(|| VoronoiParabolicArc::new(Line2::new(v2[0], v2[1]), v2[2], v2[3], v2[0]));
            let mut k = 0;
            Box::new(move |d, _| {
                let Some(a) = &a else { return false };
                match k {
                    0 => d.l2(&a.discretize_2d(p * S::of(4.0))),
                    1 => d.l3(&a.discretize_3d(p * S::of(4.0))),
                    _ => d.l3(&a.discretize_3d_straight_line()),
                }
                k += 1;
                k < 4
            })
        }
    }
}
