//! The catalogue of public operations used by the concurrency, history and reproducibility checks.
//! `run_op` executes one operation on the simulated vector types and returns a digest of everything
//! it returned, bit for bit.
use crate::rng::Rng;
use crate::simvec::*;
use linestring::linestring_2d::{
    self as l2, convex_hull as ch, indexed_intersection::IntersectionTester, intersection::IntersectionData, Aabb2,
    Approx as Approx2, Line2, LineString2, SimpleAffine, VoronoiParabolicArc,
};
use linestring::linestring_3d::{self as l3, Aabb3, Approx as Approx3, Line3, LineString3, Plane};
use linestring::prelude::{divide_into_shapes, indexed_simplify_rdp_2d, indexed_simplify_rdp_3d};
use linestring::LinestringError;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub k: String,
    /// scalar type: 32 or 64
    pub s: u8,
    pub pts: Vec<[f64; 3]>,
    #[serde(default)]
    pub idx: Vec<usize>,
    #[serde(default)]
    pub n: usize,
    #[serde(default)]
    pub p: f64,
    /// components that are not finite, or huge, or tiny: (point, component, which)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub odd: Vec<(u32, u8, u8)>,
}

/// how many words all digests had together
pub static OUTPUT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub struct D(pub Vec<u64>);
impl D {
    /// long digests end in a hash and the length
    pub fn done(mut self) -> Vec<u64> {
        OUTPUT.fetch_add(self.0.len(), std::sync::atomic::Ordering::Relaxed);
        if self.0.len() > 200 {
            let n = self.0.len();
            let h = self.0.iter().fold(0, |h, v| crate::rng::mix(h, *v));
            self.0.truncate(64);
            self.0.push(h);
            self.0.push(n as u64);
        }
        self.0
    }
    pub fn f<S: Sc>(&mut self, v: S) {
        self.0.push(v.bits());
    }
    pub fn u(&mut self, v: usize) {
        self.0.push(v as u64);
    }
    pub fn b(&mut self, v: bool) {
        self.0.push(v as u64 + 10);
    }
    pub fn s(&mut self, v: &str) {
        let mut h = 0xcbf29ce484222325u64;
        for b in v.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.0.push(h);
    }
    pub fn v2<S: Sc>(&mut self, v: SimVec2<S>) {
        self.f(v.x);
        self.f(v.y);
    }
    pub fn v3<S: Sc>(&mut self, v: SimVec3<S>) {
        self.f(v.x);
        self.f(v.y);
        self.f(v.z);
    }
    pub fn l2<S: Sc>(&mut self, v: &[SimVec2<S>]) {
        self.u(v.len());
        for p in v {
            self.v2(*p);
        }
    }
    pub fn l3<S: Sc>(&mut self, v: &[SimVec3<S>]) {
        self.u(v.len());
        for p in v {
            self.v3(*p);
        }
    }
    pub fn ls(&mut self, v: &[usize]) {
        self.u(v.len());
        for p in v {
            self.u(*p);
        }
    }
    pub fn e(&mut self, e: &LinestringError) {
        self.s(&format!("{e:?} {e}"));
    }
    pub fn res<T>(&mut self, r: Result<T, LinestringError>, g: impl FnOnce(&mut D, T)) {
        match r {
            Ok(v) => {
                self.u(1);
                g(self, v)
            }
            Err(e) => {
                self.u(2);
                self.e(&e)
            }
        }
    }
    pub fn ov2<S: Sc>(&mut self, v: Option<SimVec2<S>>) {
        match v {
            None => self.u(0),
            Some(p) => self.v2(p),
        }
    }
    pub fn inter<S: Sc>(&mut self, i: &l2::Intersection<SimVec2<S>>) {
        match i {
            l2::Intersection::Intersection(p) => {
                self.u(1);
                self.v2(*p)
            }
            l2::Intersection::Overlap(l) => {
                self.u(2);
                self.v2(l.start);
                self.v2(l.end)
            }
        }
    }
}

/// operations whose contract only covers points in general position get such points
pub const KINDS: &[&str] = &[
    "graham", "gift", "igraham", "igift", "hullpar", "ihullpar", "contpar", "cont", "contpt", "selfint", "sweep",
    "isweep", "rdp2", "vw2", "irdp2", "rdp3", "vw3", "irdp3", "shapes", "disc2", "disc3", "aabb2", "aabb3", "affine",
    "plane", "copy", "line2", "ray", "arc", "iter", "apply", "dist", "approx", "obj", "conv", "oldgraham",
];

pub const SWEEP_KINDS: &[&str] = &["sweep", "isweep", "selfint", "sweep", "isweep"];

/// what takes about linear time
const HUGE: &[&str] = &[
    "graham", "igraham", "hullpar", "ihullpar", "contpar", "cont", "contpt", "rdp2", "rdp3", "irdp2", "irdp3", "shapes", "aabb2",
    "aabb3", "affine", "copy", "iter", "apply", "approx", "obj", "conv", "disc2", "disc3", "vw2", "vw3",
    "line2", "ray", "dist",
];

fn parse_kind(k: &str) -> &'static str {
    KINDS.iter().copied().find(|x| *x == k).unwrap_or("graham")
}

pub fn gen_op(r: &mut Rng, kind: &str, max: usize) -> Op {
    let s = if r.chance(1, 2) { 64 } else { 32 };
    let kind = parse_kind(kind);
    // (the number of pairs grows with the square)
    let max = if matches!(kind, "sweep" | "isweep" | "selfint") { max.min(90) } else { max };
    let mut n = r.us(2, max.max(3));
    if (200..=300).contains(&max) && HUGE.contains(&kind) && r.chance(1, 12) {
        n = if r.chance(1, 4) { r.us(600, 5000) } else { r.us(200, 1100) };
    }
    let grid = match r.below(4) {
        0 => 3,
        1 => 6,
        2 => 40,
        _ => 180,
    };
    let float = r.chance(1, 3);
    let general = matches!(kind, "gift" | "igift" | "arc") || (kind == "graham" && false);
    if kind == "gift" || kind == "igift" {
        n = n.max(5);
    }
    let mut pts: Vec<[f64; 3]> = (0..n)
        .map(|_| {
            let mut c = [0.0; 3];
            for v in c.iter_mut() {
                *v = if float || general {
                    ((r.f64() * 2.0 - 1.0) * grid as f64 * 16384.0).round() / 16384.0
                } else {
                    r.range(-grid, grid) as f64
                };
            }
            c
        })
        .collect();
    if s == 64 && n > 12 && (kind.contains("hull") || kind.contains("cont") || kind.contains("graham")) && r.chance(1, 4) {
        // almost all points are corners
        let k = r.pick(&[300.0, 20_000.0, 262_144.0]);
        for p in pts.iter_mut() {
            let a = r.f64() * std::f64::consts::TAU;
            p[0] = (k * a.cos()).round();
            p[1] = (k * a.sin()).round();
        }
    }
    if kind == "plane" && r.chance(3, 4) {
        let a = r.us(0, 2);
        for p in pts.iter_mut() {
            p[a] = 3.0;
        }
    }
    if matches!(kind, "sweep" | "isweep") && n % 2 == 1 {
        pts.pop();
    }
    let m = pts.len();
    let mut idx: Vec<usize> = match kind {
        "shapes" => {
            let hi = if r.chance(1, 3) { r.us(2, 3 * max.max(4)) } else { r.us(2, 14) } as u64;
            (0..2 * r.us(1, max.max(4))).map(|_| r.below(hi) as usize).collect()
        }
        "isweep" => {
            let mut v = vec![];
            for _ in 0..r.us(1, m.max(2)) {
                let a = r.below(m as u64) as usize;
                let b = r.below(m as u64) as usize;
                if a != b {
                    v.push(a);
                    v.push(b);
                }
            }
            v
        }
        _ => (0..m).collect(),
    };
    if matches!(kind, "igraham" | "ihullpar" | "igift") {
        r.shuffle(&mut idx);
        if r.chance(1, 3) {
            let k = r.us(idx.len() / 2, idx.len());
            idx.truncate(k);
        }
    }
    if kind.starts_with("irdp") {
        match r.below(4) {
            0 => {}
            1 => idx.reverse(),
            2 => idx.retain(|_| r.chance(2, 3)),
            _ => idx = (0..m).map(|_| r.below(m as u64) as usize).collect(),
        }
    }
    let n = if kind.starts_with("vw") && r.chance(1, 2) { r.us(2, pts.len().max(2)) } else { r.us(2, 9) };
    let mut odd = vec![];
    // (how many samples has an infinitely long line?)
    if r.chance(1, 14) && !kind.starts_with("disc") && kind != "arc" {
        let mut v = r.below(2 * crate::scale::ODD.len() as u64) as u8;
        if matches!(kind, "hullpar" | "ihullpar") {
            // (products that overflow have no hull)
            v = r.pick(&[0, 1, crate::scale::ODD.len() as u8 + 1]);
        }
        for _ in 0..r.pick(&[1, 1, 2, 4]) {
            odd.push((r.below(pts.len() as u64) as u32, r.below(3) as u8, v));
        }
    }
    Op { k: kind.to_string(), s, pts, idx, n, p: r.us(1, 20) as f64 / 2.0, odd }
}

/// the operations that share one data set must be individually valid; `None` means the digest says
/// nothing (the library panicked: that is reported as its own digest value)
pub fn run_op(op: &Op, dir: &str) -> Vec<u64> {
    if op.s == 32 {
        run::<f32>(op, dir)
    } else {
        run::<f64>(op, dir)
    }
}

fn run<S: OpSc>(op: &Op, dir: &str) -> Vec<u64>
where
    usize: vector_traits::num_traits::AsPrimitive<S>,
{
    let mut d = D(Vec::with_capacity(16));
    let mut bufs = crate::sched::in_hook(S::take);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_in::<S>(op, dir, &mut d, &mut bufs)));
    if !FRESH_BUFS.load(std::sync::atomic::Ordering::Relaxed) {
        S::put(bufs);
    }
    match r {
        Ok(()) => d.done(),
        Err(p) => {
            if crate::sched::is_injected(&*p) {
                return vec![0xDEAD_BEEF];
            }
            d.0.push(0xDEAD);
            d.done()
        }
    }
}

/// Every thread passes all its arguments in the same buffers, as a caller does that reuses its
/// vectors: successive calls see different data at the same addresses.
pub struct Bufs<S> {
    v2: Vec<SimVec2<S>>,
    v3: Vec<SimVec3<S>>,
    h: Vec<SimVec2<S>>,
    b: Vec<SimVec2<S>>,
    idx: Vec<usize>,
}

impl<S> Default for Bufs<S> {
    fn default() -> Self {
        Bufs {
            v2: Vec::with_capacity(64),
            v3: Vec::with_capacity(64),
            h: Vec::with_capacity(64),
            b: Vec::with_capacity(64),
            idx: Vec::with_capacity(128),
        }
    }
}

/// every call gets buffers of its own
pub static FRESH_BUFS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

thread_local! {
    static B32: std::cell::RefCell<Option<Bufs<f32>>> = const { std::cell::RefCell::new(None) };
    static B64: std::cell::RefCell<Option<Bufs<f64>>> = const { std::cell::RefCell::new(None) };
}

pub trait OpSc: Sc {
    fn take() -> Bufs<Self>;
    fn put(b: Bufs<Self>);
}
impl OpSc for f32 {
    fn take() -> Bufs<f32> {
        B32.with(|b| b.borrow_mut().take()).unwrap_or_default()
    }
    fn put(v: Bufs<f32>) {
        B32.with(|b| *b.borrow_mut() = Some(v));
    }
}
impl OpSc for f64 {
    fn take() -> Bufs<f64> {
        B64.with(|b| b.borrow_mut().take()).unwrap_or_default()
    }
    fn put(v: Bufs<f64>) {
        B64.with(|b| *b.borrow_mut() = Some(v));
    }
}

fn run_in<S: OpSc>(op: &Op, dir: &str, d: &mut D, bufs: &mut Bufs<S>)
where
    usize: vector_traits::num_traits::AsPrimitive<S>,
{
    let Bufs { v2, v3, h: hb, b: bb, idx } = bufs;
    v3.clear();
    v3.extend(op.pts.iter().map(|p| SimVec3 { x: S::of(p[0]), y: S::of(p[1]), z: S::of(p[2]) }));
    for (i, c, w) in op.odd.iter().filter(|_| !op.pts.is_empty()) {
        let n = crate::scale::ODD.len() as u8;
        let v = crate::scale::ODD[(w % n) as usize];
        let v = S::of(if *w >= n { -v } else { v });
        let k = *i as usize % v3.len();
        match c % 3 {
            0 => v3[k].x = v,
            1 => v3[k].y = v,
            _ => v3[k].z = v,
        }
    }
    v2.clear();
    v2.extend(v3.iter().map(|p| SimVec2 { x: p.x, y: p.y }));
    idx.clear();
    idx.extend_from_slice(&op.idx);
    hb.clear();
    bb.clear();
    let (v2, v3, idx): (&Vec<_>, &Vec<_>, &Vec<usize>) = (v2, v3, idx);
    let p = S::of(op.p);
    let half = v2.len() / 2;
    match parse_kind(&op.k) {
        "graham" => {
            d.res(v2.convex_hull(), |d, h| d.l2(&h));
            for w in v2.windows(3) {
                d.b(ch::is_point_left(w[0], w[1], w[2]));
                d.b(ch::is_point_left_allow_collinear(w[0], w[1], w[2]));
                d.u(match ch::point_orientation(w[0], w[1], w[2]) {
                    ch::Orientation::Left => 1,
                    ch::Orientation::Right => 2,
                    _ => 3,
                });
                d.f(ch::cross_2d(w[0], w[1], w[2]));
                let o = ch::point_orientation(w[0], w[1], w[2]);
                d.b(o.is_left());
                d.b(o.is_left_or_collinear());
            }
        }
        #[allow(deprecated)]
        "oldgraham" => d.res(ch::graham_scan_wo_atan2(v2), |d, h| d.l2(&h)),
        "gift" => d.res(ch::gift_wrap(v2), |d, h| d.l2(&h)),
        "igraham" => {
            d.res(ch::indexed_graham_scan(v2, idx), |d, h| d.ls(&h));
            d.res(ch::indexed_graham_scan_no_loop(v2, idx, None), |d, h| d.ls(&h));
        }
        "igift" => d.res(ch::indexed_gift_wrap(v2, idx), |d, h| d.ls(&h)),
        // which of several equal points, or of nearly collinear ones, is kept may depend on the
        // chunking, so inputs for these two are integer points and only the geometry is digested
        "hullpar" => {
            let v: Vec<SimVec2<S>> = v2.iter().map(|p| SimVec2 { x: round(p.x), y: round(p.y) }).collect();
            d.res(v.convex_hull_par(op.n.max(2)), |d, h| digest_hull(d, &h))
        }
        "ihullpar" => {
            let v: Vec<SimVec2<S>> = v2.iter().map(|p| SimVec2 { x: round(p.x), y: round(p.y) }).collect();
            d.res(ch::convex_hull_par(&v, idx, op.n.max(1)), |d, h| {
                let h: Vec<SimVec2<S>> = h.iter().map(|i| v[*i]).collect();
                digest_hull(d, &h)
            })
        }
        "contpar" | "cont" => {
            let a: Vec<SimVec2<S>> = v2.iter().map(|p| SimVec2 { x: round(p.x), y: round(p.y) }).collect();
            if let Ok(h) = ch::graham_scan(&a) {
                if h.len() > 3 {
                    hb.extend_from_slice(&h);
                    if op.n % 3 == 0 {
                        let _ = hb.pop();
                    }
                    bb.extend(a[half..].iter().map(|q| SimVec2 { x: q.x + round(p - S::of(2.0)), y: q.y }));
                    let contains = |a: &Vec<SimVec2<S>>, b: &Vec<SimVec2<S>>| match op.k.as_str() {
                        "cont" => ch::contains_convex_hull(a, b),
                        _ => ch::contains_convex_hull_par(a, b),
                    };
                    d.b(contains(hb, bb));
                    d.b(contains(hb, &a));
                    // outside beyond other edges, and a polygon of another size
                    for q in bb.iter_mut() {
                        *q = SimVec2 { x: q.x, y: q.y + round(p) };
                    }
                    d.b(contains(hb, bb));
                    d.b(contains(&vec![h[0], h[1], h[2], h[0]], bb));
                }
            }
        }
        "contpt" => {
            if let Ok(h) = ch::graham_scan(v2) {
                if h.len() > 3 {
                    hb.extend_from_slice(&h);
                    if op.n % 3 == 0 {
                        let _ = hb.pop();
                    }
                    for q in v2 {
                        d.b(hb.contains_point_inclusive(*q));
                        d.b(hb.contains_point_exclusive(*q));
                    }
                }
            }
        }
        "selfint" => {
            d.b(v2.is_connected());
            d.res(v2.is_self_intersecting(), |d, b| d.b(b));
        }
        "sweep" => {
            let r = (|| {
                IntersectionData::<SimVec2<S>>::default()
                    .with_ignore_end_point_intersections(op.n % 2 == 0)?
                    .with_stop_at_first_intersection(op.n % 5 == 0)?
                    .with_lines(v2.chunk_iter().map(|l| Line2::new(l.start, l.end)))?
                    .compute()
            })();
            d.res(r, |d, it| {
                d.u(it.len());
                for (p, l) in it {
                    d.v2(p);
                    d.ls(&l);
                }
            });
        }
        "isweep" => {
            let e: Vec<(usize, usize)> = idx.chunks_exact(2).map(|c| (c[0], c[1])).collect();
            let r = (|| {
                IntersectionTester::<SimVec2<S>>::new(v2.clone())
                    .with_ignore_end_point_intersections(op.n % 2 == 0)?
                    .with_stop_at_first_intersection(op.n % 5 == 0)?
                    .with_edges(e.iter())?
                    .compute()
            })();
            d.res(r, |d, (v, it)| {
                d.l2(&v);
                d.u(it.len());
                for (i, l) in it {
                    d.u(i);
                    d.ls(&l);
                }
            });
        }
        "rdp2" => {
            d.l2(&v2.simplify_rdp(p));
        }
        "vw2" => d.l2(&v2.simplify_vw(op.n.min(v2.len()))),
        "irdp2" => {
            d.ls(&indexed_simplify_rdp_2d(v2, idx, p));
        }
        "rdp3" => d.l3(&v3.simplify_rdp(p)),
        "vw3" => d.l3(&v3.simplify_vw(op.n.min(v3.len()))),
        "irdp3" => {
            d.ls(&indexed_simplify_rdp_3d(v3, idx, p));
        }
        "shapes" => {
            let (g, vob) = divide_into_shapes(idx);
            d.u(g.len());
            for l in &g {
                d.ls(l);
            }
            d.u(vob.len());
            let words: Vec<u32> = vob.iter_storage().collect();
            for w in words.chunks(2) {
                d.u(w[0] as usize | (w.get(1).copied().unwrap_or(0) as usize) << 32);
            }
        }
        "disc2" => {
            let o: Vec<SimVec2<S>> = v2.discretize(p * S::of(10.0)).collect();
            d.l2(&o)
        }
        "disc3" => {
            let o: Vec<SimVec3<S>> = v3.discretize(p * S::of(10.0)).collect();
            d.l3(&o)
        }
        "aabb2" => {
            let mut a = Aabb2::with_points(&v2[..half]);
            let b = Aabb2::with_points(&v2[half..]);
            d.ov2(a.low());
            a.update_with_aabb(b.clone());
            a.update_with_point(v2[0]);
            d.ov2(a.low());
            d.ov2(a.high());
            d.ov2(a.center());
            d.b(a.contains_aabb_inclusive(&b));
            d.b(b.contains_aabb_inclusive(&a));
            d.b(b.contains_point_inclusive(v2[0]));
            d.b(a.contains_line_inclusive(&Line2::new(v2[0], v2[1])));
            if let Some(h) = a.convex_hull::<SimVec2<S>>() {
                d.l2(&h);
            }
            if let Some((lo, hi, size)) = a.extents() {
                d.v2(lo);
                d.v2(hi);
                d.v2(size);
            }
            if let Some((lo, hi)) = b.min_max() {
                d.v2(lo);
                d.v2(hi);
            }
            a.apply(&|q| q + SimVec2 { x: p, y: S::ONE });
            d.ov2(a.low());
            d.ov2(a.high());
            d.ov2(Aabb2::new(v2[0]).center());
        }
        "aabb3" => {
            let mut a = Aabb3::with_points(&v3[..half]);
            let b = Aabb3::with_points(&v3[half..]);
            d.b(a.contains_aabb_inclusive(&b));
            a.update_with_aabb(b.clone());
            for q in [a.get_low(), a.get_high(), a.center()].into_iter().flatten() {
                d.v3(q);
            }
            d.b(b.contains_point_inclusive(v3[0]));
            d.b(a.contains_line_inclusive(&Line3::new(v3[0], v3[1])));
            if let Some((lo, hi, size)) = a.extents() {
                d.v3(lo);
                d.v3(hi);
                d.v3(size);
            }
        }
        "affine" => {
            let a = Aabb2::with_points(&v2[..half.max(1)]);
            let b = Aabb2::with_points(&v2[half..]);
            d.res(SimpleAffine::new(&a, &b), |d, t| {
                d.s(&format!("{t:?}"));
                d.b(t.clone() == t);
                for q in v2 {
                    d.res(t.transform_ab(*q), |d, v| d.v2(v));
                    d.res(t.transform_ba(*q), |d, v| d.v2(v));
                }
                d.res(t.transform_ab_a([v2[0].x, v2[0].y, v2[1].x, v2[1].y]), |d, a| a.iter().for_each(|x| d.f(*x)));
                d.res(t.transform_ba_a([v2[0].x, v2[0].y, v2[1].x, v2[1].y]), |d, a| a.iter().for_each(|x| d.f(*x)));
            });
        }
        "plane" => {
            let a = Aabb3::with_points(v3);
            d.s(&format!("{:?}", Plane::get_plane_relaxed(a, S::of(0.05), 4)));
            match Plane::get_plane(a) {
                None => d.u(9),
                Some(pl) => {
                    d.s(&format!("{pl:?}"));
                    let c = v3.copy_to_2d(pl);
                    d.l2(&c);
                    d.l3(&c.copy_to_3d(pl));
                    for q in v3 {
                        let t: SimVec2<S> = pl.point_to_2d(*q);
                        d.v2(t);
                        let u: SimVec3<S> = pl.point_to_3d(t);
                        d.v3(u);
                    }
                }
            }
        }
        "copy" => {
            for pl in [Plane::XY, Plane::XZ, Plane::YZ] {
                d.l2(&v3.copy_to_2d(pl));
                d.l3(&v2.copy_to_3d(pl));
                let l = Line2::new(v2[0], v2[1]).copy_to_3d(pl);
                d.v3(l.start);
                d.v3(l.end);
                let l = Line3::new(v3[0], v3[1]).apply(|q| q * p).copy_to_2d(pl);
                d.v2(l.start);
                d.v2(l.end);
            }
        }
        "line2" => {
            for w in v2.windows(4) {
                match Line2::new(w[0], w[1]).intersection_point(Line2::new(w[2], w[3])) {
                    None => d.u(0),
                    Some(i) => d.inter(&i),
                }
            }
            let l = Line2::new(v2[0], v2[v2.len() - 1]);
            match v2.intersection(&l) {
                None => d.u(0),
                Some(i) => d.inter(&i),
            }
            for w in v2.windows(3) {
                match l2::intersect_line_point(Line2::new(w[0], w[1]), w[2]) {
                    None => d.u(0),
                    Some(i) => {
                        d.s(&format!("{i:?}"));
                        d.v2(i.closest(w[0]));
                        d.v2(i.single());
                    }
                }
            }
            let (a, b) = v2.find_two_intersections(&l);
            d.ov2(a);
            d.ov2(b);
            for i in v2.find_all_intersections(&l) {
                d.inter(&i);
            }
        }
        "ray" => {
            d.ov2(v2.closest_ray_intersection(v2[0], v2[1]));
            for w in v2.windows(4) {
                match Vec::<SimVec2<S>>::ray_edge_intersection(w[0], w[1], w[2], w[3]) {
                    None => d.u(0),
                    Some(t) => d.f(t),
                }
            }
        }
        "arc" => {
            if arc_ok(v2) {
                let a = VoronoiParabolicArc::new(Line2::new(v2[0], v2[1]), v2[2], v2[3], v2[0]);
                d.s(&format!("{a:?}"));
                let a = a.clone();
                d.l2(&a.discretize_2d(p * S::of(4.0)));
                d.l3(&a.discretize_3d(p * S::of(4.0)));
                d.l3(&a.discretize_3d_straight_line());
            }
        }
        "iter" => {
            let w = v2.window_iter();
            d.u(w.len());
            for l in w {
                d.v2(l.start);
                d.v2(l.end);
            }
            let c = v3.chunk_iter();
            d.u(c.len());
            d.l3(c.remainder());
            for l in c {
                d.v3(l.start);
                d.v3(l.end);
            }
            d.b(v3.is_connected());
            d.u(v2.point_count());
        }
        "apply" => {
            let mut a = v2.clone();
            a.apply(&|q| q + SimVec2 { x: S::ONE, y: S::TWO });
            d.l2(&a);
            let mut a = v3.clone();
            a.apply(&|q| q * S::TWO);
            d.l3(&a);
            let mut b = Aabb3::with_points(v3);
            b.apply(&|q| q * S::TWO);
            for q in [b.get_low(), b.get_high()].into_iter().flatten() {
                d.v3(q);
            }
        }
        "dist" => {
            for w in v2.windows(3) {
                d.f(l2::distance_to_line_squared_safe(w[0], w[1], w[2]));
                d.v2(l2::scale_to_coordinate(w[0], w[1], p));
                if w[0] != w[1] {
                    d.f(l2::distance_to_line_squared(w[0], w[1], w[2]));
                }
            }
            for w in v3.windows(3) {
                d.f(l3::distance_to_line_squared_safe(w[0], w[1], w[2]));
                if w[0] != w[1] {
                    d.f(l3::distance_to_line_squared(w[0], w[1], w[2]));
                }
            }
        }
        "approx" => {
            let mut a = v2.clone();
            a[half].x = a[half].x + S::EPSILON;
            d.b(Approx2::ulps_eq(&a, v2, S::EPSILON, 4));
            d.b(Approx2::abs_diff_eq(&a, v2, S::EPSILON));
            let mut a = v3.clone();
            a[half].z = a[half].z + p;
            d.b(Approx3::ulps_eq(&a, v3, S::EPSILON, 4));
            d.b(Approx3::abs_diff_eq(&a, v3, S::EPSILON));
        }
        "conv" => {
            let l = Line2::<SimVec2<S>>::from([v2[0].x, v2[0].y, v2[1].x, v2[1].y]);
            let m = Line2::<SimVec2<S>>::from([[v2[1].x, v2[0].y], [v2[0].x, v2[1].y]]);
            d.b(l == m);
            d.b(l == Line2::new(v2[0], v2[1]));
            d.b(vector_traits::approx::AbsDiffEq::abs_diff_eq(&l, &m, p));
            d.b(vector_traits::approx::UlpsEq::ulps_eq(&l, &m, p, 4));
            d.s(&format!("{l:?} {m:?}"));
            let b = Aabb2::<SimVec2<S>>::from(v2.iter());
            d.s(&format!("{b:?}"));
            d.b(b == Aabb2::with_points(&v2[..half]));
            let e = Aabb2::<SimVec2<S>>::default();
            d.ov2(e.center());
            d.s(&format!("{e:?}"));
            let mut e = Aabb2::new(v2[0]);
            e.update_with_points(v2);
            d.s(&format!("{e:?}"));
            d.s(&format!("{:?}", Aabb3::with_points(v3)));
            d.l2(&Vec::<SimVec2<S>>::from(b));
            let q = [v3[0], v3[1]];
            let a = [q[0].x, q[0].y, q[0].z, q[1].x, q[1].y, q[1].z];
            for l in [Line3::<SimVec3<S>>::from(a), Line3::from(q)] {
                d.s(&format!("{l:?}"));
            }
            for b in [Aabb3::<SimVec3<S>>::from(a), Aabb3::from(q)] {
                for q in [b.get_low(), b.get_high(), b.center()].into_iter().flatten() {
                    d.v3(q);
                }
            }
            let t = IntersectionTester::<SimVec2<S>>::new(v2.clone());
            d.v2(t.get_sweepline_pos().0);
            let t = IntersectionData::<SimVec2<S>>::default();
            d.v2(*t.get_sweepline_pos());
        }
        _ => {
            let lines: Vec<Vec<Line3<SimVec3<S>>>> =
                v3.chunks(4).map(|c| c.windows(2).map(|w| Line3::new(w[0], w[1])).collect()).collect();
            let path = format!("{dir}/op.obj");
            d.res(l3::save_to_obj_file(&path, "thing", &lines), |_, _| ());
            match crate::disk::get(&path) {
                None => d.u(0),
                Some(b) => d.s(&b.iter().map(|c| *c as char).collect::<String>()),
            }
        }
    }
}

/// is there a parabola between the segment 0-1 and the point 2 from point 3 to point 0?
pub fn arc_ok<S: Sc>(v: &[SimVec2<S>]) -> bool {
    if v.len() < 4 {
        return false;
    }
    let f = |i: usize| (v[i].x.f(), v[i].y.f());
    let (s, e, c, a) = (f(0), f(1), f(2), f(3));
    let d = (e.0 - s.0, e.1 - s.1);
    let len = (d.0 * d.0 + d.1 * d.1).sqrt();
    let off = (d.0 * (c.1 - s.1) - d.1 * (c.0 - s.0)) / len;
    let along = (d.0 * (a.0 - s.0) + d.1 * (a.1 - s.1)) / len;
    len > 0.25 && off.abs() > 0.25 && along.abs() > 0.25
}

fn round<S: Sc>(v: S) -> S {
    S::of(v.f().round())
}

fn digest_hull<S: Sc>(d: &mut D, h: &[SimVec2<S>]) {
    // degenerate (collinear) point sets have no hull; their result is not compared
    let area: f64 = h.windows(2).map(|w| w[0].x.f() * w[1].y.f() - w[1].x.f() * w[0].y.f()).sum();
    if h.len() >= 4 && area != 0.0 {
        d.l2(h)
    }
}
