//! Case generation: everything is drawn from one generator seeded by (VERIF_SEED, property, case number).
use crate::case::*;
use crate::disk::{Fault, FileImg, Plan};
use crate::geom;
use crate::lazy::{Act, Task, LAZY_KINDS};
use crate::ops::{gen_op, Op, KINDS, SWEEP_KINDS};
use crate::rng::{mix, Rng};
use crate::sched::{Policy, Sched};

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"];

pub fn gen(property: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::new(mix(mix(seed, property.bytes().fold(17, |h, b| mix(h, b as u64))), idx));
    let r = &mut r;
    let work = match property {
        "C01" => c01(r),
        "C02" => c02(r),
        "C03" => c03(r),
        "C04" => c04(r),
        "C05" => c05(r),
        "C06" => c06(r),
        "C07" | "C08" | "C09" => save(r, property),
        "C10" => c10(r),
        "C12" => c12(r),
        "C13" => c13(r),
        "C14" => crate::scale::gen(r),
        _ => c11(r),
    };
    let t = match &work {
        Work::Par { threads, .. }
        | Work::NonFinite { threads, .. }
        | Work::Panic { threads, .. }
        | Work::Conc { threads, .. }
        | Work::Lazy { threads, .. }
        | Work::Leak { threads, .. }
        | Work::Scale { threads, .. }
        | Work::Saves { threads, .. } => *threads,
        _ => 1,
    };
    let mut sched = Sched::gen(r, t);
    if matches!(property, "C05" | "C06" | "C12" | "C13") {
        // now and then with large arguments, and some algorithms are quadratic
        let of = |o: &Op| (o.pts.len() as u64).pow(2);
        let pairs: u64 = match &work {
            Work::Conc { callers, .. } => callers.iter().flatten().map(of).sum(),
            Work::Env { ops, prefix, .. } => 2 * ops.iter().chain(prefix).map(of).sum::<u64>(),
            Work::Lazy { tasks, callers, .. } => {
                2 * tasks.iter().map(|t| of(&t.op) + t.nested.as_ref().map_or(0, of)).sum::<u64>()
                    * (1 + callers.iter().map(|c| c.len() as u64).sum::<u64>())
            }
            Work::Leak { rounds, kinds, lazy, max, .. } => {
                *rounds as u64 * (kinds.len() + lazy.len()) as u64 * (*max as u64).pow(2)
            }
            _ => 0,
        };
        sched.budget = (6 * sched.budget as u64 + 40 * pairs).min(4_000_000_000) as u32;
    }
    if property == "C14" {
        sched.budget = 2_000_000_000;
    }
    if property == "C11" && r.chance(1, 2) {
        sched.policy = starve(r, t);
    }
    let fill = if r.chance(1, 3) { [0xA5u32, 0xFF, 0x7F, 0x01][r.below(4) as usize] | [0, 0xFF00][r.below(2) as usize] } else { 0 };
    Case { property: property.to_string(), seed, idx, sched, hash_seed: r.next(), fill, work }
}

fn starve(r: &mut Rng, threads: u32) -> Policy {
    let mut victims = 0u64;
    for _ in 0..r.us(1, (threads as usize).max(1)) {
        victims |= 1 << r.below(threads as u64 + 2);
    }
    Policy::Starve { victims, gap: [2u32, 5, 20, 100][r.below(4) as usize] }
}

fn threads(r: &mut Rng) -> u32 {
    if r.chance(1, 40) {
        // more than the usual number of cores
        return r.us(9, 40) as u32;
    }
    r.pick(&[1, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 8])
}

fn pool(r: &mut Rng) -> Pool {
    match r.below(10) {
        0..=3 => Pool::Install,
        4..=6 => Pool::Global,
        7 => Pool::Callers(r.us(1, 4) as u32),
        8 => Pool::Scope(r.us(1, 4) as u32),
        _ => Pool::ParIter(r.us(1, 4) as u32),
    }
}

fn nested(r: &mut Rng) -> Pool {
    let k = r.us(1, 6) as u32;
    match r.below(8) {
        0 | 1 => Pool::Scope(k),
        2 | 3 => Pool::Join(k),
        4 | 5 => Pool::ParIter(k),
        6 => Pool::Callers(k),
        _ => Pool::Install,
    }
}

/// integer points; |c| <= 200 for f32, where every product the library forms is exact
fn int_points(r: &mut Rng, n: usize, f32t: bool) -> Vec<[f64; 2]> {
    let big = if f32t { 200 } else { 1 << 20 };
    let grid = r.pick(&[1i64, 2, 3, 4, 6, 10, 20, 50, 200, big, big]);
    let mut p: Vec<[i64; 2]> = Vec::with_capacity(n);
    match r.below(16) {
        // boundary of an axis parallel square: long collinear runs
        0 => {
            for _ in 0..n {
                let t = r.range(-grid, grid);
                p.push(match r.below(4) {
                    0 => [t, -grid],
                    1 => [t, grid],
                    2 => [-grid, t],
                    _ => [grid, t],
                });
            }
        }
        // parabola: every point is a hull point
        1 => {
            let m = if f32t { 14 } else { 1000 };
            let o = r.range(-3, 3);
            for i in 0..n as i64 {
                let x = if n as i64 > 2 * m { r.range(-m, m) } else { i - n as i64 / 2 };
                p.push([x + o, x * x / if f32t { 1 } else { r.pick(&[1, 1, 1, 2]) }]);
            }
            if r.chance(1, 2) {
                for q in p.iter_mut() {
                    q[1] = -q[1];
                }
            }
            if r.chance(1, 2) {
                for q in p.iter_mut() {
                    *q = [q[1], q[0]];
                }
            }
        }
        // a circle
        2 => {
            let rad = if f32t { 190.0 } else { r.pick(&[30.0, 1000.0, 1e6]) };
            for _ in 0..n {
                let a = r.f64() * std::f64::consts::TAU;
                p.push([(rad * a.cos()).round() as i64, (rad * a.sin()).round() as i64]);
            }
        }
        // few distinct points, many duplicates
        3 | 4 => {
            let k = r.us(1, 9);
            let d: Vec<[i64; 2]> = (0..k).map(|_| [r.range(-grid, grid), r.range(-grid, grid)]).collect();
            for _ in 0..n {
                p.push(d[r.below(k as u64) as usize]);
            }
        }
        // many points share the lowest x
        5 => {
            for _ in 0..n {
                let x = if r.chance(1, 2) { -grid } else { r.range(-grid, grid) };
                p.push([x, r.range(-grid, grid)]);
            }
        }
        // all collinear
        6 if r.chance(1, 3) => {
            let (dx, dy) = (r.range(-2, 2), r.range(-2, 2));
            for _ in 0..n {
                let t = r.range(-grid.min(90), grid.min(90));
                p.push([t * dx, t * dy]);
            }
        }
        // diamond: diagonal collinear runs
        7 => {
            for _ in 0..n {
                let t = r.range(0, grid);
                let (sx, sy) = (r.pick(&[-1, 1]), r.pick(&[-1, 1]));
                p.push([sx * t, sy * (grid - t)]);
            }
        }
        // clusters, one after the other: a chunk sees only one of them
        8 => {
            let k = r.us(1, 5);
            let c: Vec<[i64; 2]> = (0..k).map(|_| [r.range(-grid, grid), r.range(-grid, grid)]).collect();
            for i in 0..n {
                let c = c[i * k / n.max(1)];
                p.push([(c[0] + r.range(-2, 2)).clamp(-big, big), (c[1] + r.range(-2, 2)).clamp(-big, big)]);
            }
        }
        // a star: many points in the same direction from the lowest one
        9 => {
            let o = [-(grid.min(60)), r.range(-3, 3)];
            p.push(o);
            while p.len() < n {
                let t = r.range(0, 20);
                p.push([o[0] + t * r.range(0, 3), o[1] + t * r.range(-3, 3)]);
            }
            r.shuffle(&mut p);
        }
        _ => {
            for _ in 0..n {
                p.push([r.range(-grid, grid), r.range(-grid, grid)]);
            }
        }
    }
    match r.below(6) {
        0 => p.sort_unstable(),
        1 => {
            p.sort_unstable();
            p.reverse()
        }
        2 => p.sort_unstable_by_key(|q| (q[1], q[0])),
        _ => {}
    }
    p.truncate(n);
    p.iter().map(|q| [q[0] as f64, q[1] as f64]).collect()
}

fn float_points(r: &mut Rng, n: usize) -> Vec<[f64; 2]> {
    let s = r.pick(&[1.0, 1.0, 10.0, 4096.0, 1e6]);
    let (ox, oy) = if r.chance(1, 2) { (0.0, 0.0) } else { (s * r.f64(), s * r.f64()) };
    (0..n).map(|_| [s * (r.f64() * 2.0 - 1.0) + ox, s * (r.f64() * 2.0 - 1.0) + oy]).collect()
}

struct HullOpt {
    min: usize,
    big: bool,
    simvec: bool,
    exact: bool,
}

fn hull(r: &mut Rng, o: &HullOpt) -> Hull {
    let mut vt = if o.simvec { r.pick(&[0u8, 0, 1]) } else { r.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3, 4]) };
    let n = match r.below(100) {
        0..=7 => r.us(0, 4),
        8..=64 => r.us(4, 24),
        65..=92 => r.us(16, 70),
        93..=97 => r.us(70, 250),
        _ if o.big && r.chance(1, 40) => match r.below(3) {
            0 => r.us(65_530, 75_000),
            _ => r.us(3000, 20_000),
        },
        _ if o.big => r.us(250, 3000),
        _ => r.us(10, 60),
    }
    .max(o.min);
    if n > 500 && !o.simvec {
        vt = r.pick(&[2, 3, 4]);
    }
    let f32t = vt == 1 || vt == 3;
    let exact = o.exact || n < 6 || r.chance(5, 6);
    let mut pts = if exact { int_points(r, n, f32t) } else { float_points(r, n) };
    if exact && r.chance(1, 8) && pts.len() > 2 {
        let p = pts[0];
        pts.push(p); // a closed line string
    }
    let m = pts.len();
    let mut sel: Option<Vec<usize>> = if r.chance(3, 8) {
        None
    } else {
        let mut s: Vec<usize> = (0..m).collect();
        match r.below(5) {
            0 => {}
            1 => r.shuffle(&mut s),
            2 => {
                let keep = r.us(1, 10) as u64;
                s.retain(|_| r.chance(keep, 10));
            }
            3 if exact => s = (0..r.us(o.min, m + 3)).map(|_| r.below(m.max(1) as u64) as usize).collect(),
            _ => s.reverse(),
        }
        if r.chance(1, 6) && s.len() > 2 {
            let f = s[0];
            s.push(f); // a closed index list
        }
        if m == 0 {
            s.clear();
        }
        Some(s)
    };
    if sel.as_ref().is_some_and(|s| trimmed(s) < o.min) || (!exact && sel.as_ref().is_some_and(|s| trimmed(s) < 6)) {
        sel = Some((0..m).collect());
    }
    let n = sel.as_ref().map_or(m, |s| s.len());
    let chunk = match r.below(8) {
        0..=2 => r.us(1, 5),
        3 => n / 2 + r.us(0, 1),
        4 => n / r.us(2, 7),
        5 => r.us(1, n + 3),
        6 => n.saturating_sub(r.us(0, 2)),
        _ => r.us(2, 12),
    };
    let chunk = chunk.max(if sel.is_none() { 2 } else { 1 });
    let chunk = if r.chance(1, 40) { r.pick(&[255usize, 65_535, 65_536, 65_540, 1 << 31, 1 << 32, (1 << 32) + 2, 1 << 40, 1 << 62]) } else { chunk };
    // keep the number of chunks, and with it the number of steps, bounded
    let chunk = chunk.max(n / 400);
    let place = if exact { place(r, f32t) } else { Place::default() };
    Hull { vt, pts, sel, chunk, exact, place }
}

/// far from the origin, scaled up or (a little) down, such that all products are still exact
fn place(r: &mut Rng, f32t: bool) -> Place {
    if r.chance(3, 4) {
        return Place::default();
    }
    let exp = match r.below(3) {
        0 => 0,
        _ if f32t => r.pick(&[-8, -3, 10, 30, 45]),
        _ => r.pick(&[-8, -3, 12, 40, 200, 450]),
    };
    let mut at = [0.0; 2];
    if r.chance(2, 3) {
        for c in at.iter_mut() {
            let m = if f32t { r.pick(&[0, 1000, 1 << 22]) } else { r.pick(&[0, 1000, 1 << 26, 1i64 << 50]) };
            *c = r.range(-m, m) as f64;
        }
    }
    Place { exp, at }
}

pub fn trimmed(s: &[usize]) -> usize {
    if s.len() > 1 && s.first() == s.last() {
        s.len() - 1
    } else {
        s.len()
    }
}

const ANY: HullOpt = HullOpt { min: 0, big: true, simvec: false, exact: false };

fn jobs(r: &mut Rng, pool: &Pool, one: &dyn Fn(&mut Rng) -> Job) -> Vec<Job> {
    let k = match pool {
        Pool::Global | Pool::Install => 1 + r.chance(1, 6) as usize,
        Pool::Callers(k) | Pool::Scope(k) | Pool::Join(k) | Pool::ParIter(k) => r.us(1, (*k as usize).min(4)),
    };
    (0..k).map(|_| one(r)).collect()
}

fn c01(r: &mut Rng) -> Work {
    let pool = pool(r);
    let jobs = jobs(r, &pool, &|r| Job::Hull(hull(r, &ANY)));
    Work::Par { pool, threads: threads(r), jobs }
}

pub fn contain(r: &mut Rng, simvec: bool) -> Contain {
    let vt = if simvec { r.pick(&[0u8, 0, 1]) } else { r.pick(&[0u8, 0, 0, 0, 1, 1, 2, 3, 4]) };
    let f32t = vt == 1 || vt == 3;
    let g = if f32t { r.pick(&[3i64, 10, 50, 180]) } else { r.pick(&[3i64, 10, 100, 1 << 18]) };
    if r.chance(1, 30) {
        // nothing, or a single point, contains nothing
        let a: Vec<[f64; 2]> = (0..r.below(2)).map(|_| [1.0, 2.0]).collect();
        let b = (0..r.below(3)).map(|i| [i as f64, 2.0]).collect();
        return Contain { vt, a, closed: false, b, place: Place::default() };
    }
    let h = loop {
        let n = if r.chance(1, 40) { r.us(100, 3000) } else { r.us(3, 40) };
        let p: Vec<geom::P> = match r.below(3) {
            0 => (0..n)
                .map(|_| {
                    let a = r.f64() * std::f64::consts::TAU;
                    ((g as f64 * a.cos()).round() as i64, (g as f64 * a.sin()).round() as i64)
                })
                .collect(),
            _ => (0..n).map(|_| (r.range(-g, g), r.range(-g, g))).collect(),
        };
        let h = geom::hull(&p);
        if h.len() >= 3 {
            break h;
        }
    };
    let mut h = h;
    let k = r.below(h.len() as u64) as usize;
    h.rotate_left(k);
    let n = match r.below(20) {
        0 => 0,
        1..=13 => r.us(1, 16),
        14..=18 => r.us(10, 100),
        _ if r.chance(1, 20) => match r.below(4) {
            0 if vt >= 2 && h.len() < 100 => r.us(65_530, 70_000),
            _ => r.us(600, 8000),
        },
        _ => r.us(100, 600),
    };
    let inside = |r: &mut Rng| -> geom::P {
        match r.below(8) {
            0 => h[r.below(h.len() as u64) as usize],
            1 => {
                // a lattice point on an edge, if there is one
                let i = r.below(h.len() as u64) as usize;
                let (a, b) = (h[i], h[(i + 1) % h.len()]);
                let (dx, dy) = (b.0 - a.0, b.1 - a.1);
                let d = gcd(dx.unsigned_abs(), dy.unsigned_abs()).max(1) as i64;
                let t = r.range(0, d);
                (a.0 + dx / d * t, a.1 + dy / d * t)
            }
            _ => {
                for _ in 0..40 {
                    let q = (r.range(-g, g), r.range(-g, g));
                    if geom::inside(&h, q) {
                        return q;
                    }
                }
                h[0]
            }
        }
    };
    let outside = |r: &mut Rng| -> geom::P {
        match r.below(3) {
            // just beyond a vertex or an edge
            0 | 1 => {
                for _ in 0..40 {
                    let i = r.below(h.len() as u64) as usize;
                    let (a, b) = (h[i], h[(i + 1) % h.len()]);
                    let m = if r.chance(1, 2) { a } else { ((a.0 + b.0) / 2, (a.1 + b.1) / 2) };
                    let q = (m.0 + r.range(-1, 1), m.1 + r.range(-1, 1));
                    if !geom::inside(&h, q) {
                        return q;
                    }
                }
                (g + 2, g + 2)
            }
            _ => {
                for _ in 0..40 {
                    let q = (r.range(-g - 3, g + 3), r.range(-g - 3, g + 3));
                    if !geom::inside(&h, q) {
                        return q;
                    }
                }
                (-g - 2, 0)
            }
        }
    };
    let mut b: Vec<geom::P> = (0..n).map(|_| inside(r)).collect();
    match r.below(6) {
        0..=2 => {}
        3 | 4 if n > 0 => {
            let i = if r.chance(1, 4) { n - 1 } else { r.below(n as u64) as usize };
            b[i] = outside(r);
        }
        _ => {
            let k = r.below(n as u64 + 1) as usize;
            for q in b.iter_mut().take(k) {
                *q = outside(r);
            }
        }
    }
    if r.chance(1, 3) {
        // the documented use: b is a hull itself
        let hb = geom::hull(&b);
        if hb.len() >= 3 {
            b = hb;
            b.push(b[0]);
        }
    }
    let f = |p: &geom::P| [p.0 as f64, p.1 as f64];
    let place = place(r, f32t);
    Contain { vt, a: h.iter().map(f).collect(), closed: !r.chance(1, 3), b: b.iter().map(f).collect(), place }
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn c02(r: &mut Rng) -> Work {
    let pool = pool(r);
    let jobs = jobs(r, &pool, &|r| Job::Contain(contain(r, false)));
    Work::Par { pool, threads: threads(r), jobs }
}

fn c03(r: &mut Rng) -> Work {
    loop {
        let job = hull(r, &HullOpt { min: 4, big: true, ..ANY });
        let mut sel = job.sel.clone().unwrap_or_else(|| (0..job.pts.len()).collect());
        sel.sort_unstable();
        sel.dedup();
        let bad_selected = r.chance(4, 5);
        let from: Vec<usize> = if bad_selected {
            sel.clone()
        } else {
            (0..job.pts.len()).filter(|i| sel.binary_search(i).is_err()).collect()
        };
        if from.is_empty() {
            continue;
        }
        let k = if r.chance(2, 3) { 1 } else { r.us(1, 4) };
        let bad = (0..k)
            .map(|_| {
                let at = match r.below(4) {
                    0 => from[0],
                    1 => from[from.len() - 1],
                    _ => from[r.below(from.len() as u64) as usize],
                };
                Bad::NonFinite { at, comp: r.below(2) as u8, kind: r.below(3) as u8 }
            })
            .collect();
        return Work::NonFinite { pool: pool(r), threads: threads(r), job, bad, bad_selected };
    }
}

fn c04(r: &mut Rng) -> Work {
    let small = HullOpt { min: 5, big: false, simvec: true, exact: true };
    let job = |r: &mut Rng| {
        if r.chance(3, 4) {
            Job::Hull(hull(r, &small))
        } else {
            loop {
                let c = contain(r, true);
                if c.a.len() > 2 && !c.b.is_empty() {
                    return Job::Contain(c);
                }
            }
        }
    };
    let j = job(r);
    let bad_index = match &j {
        Job::Hull(_) if r.chance(1, 4) => {
            Some((r.us(0, 200), r.pick(&[0usize, 0, 1, 2, 7, 1 << 20, 1 << 40])))
        }
        _ => None,
    };
    let k = r.pick(&[0usize, 0, 0, 1, 1, 2, 3]);
    let other = (0..k).map(|_| job(r)).collect();
    let pool = match r.below(8) {
        0..=2 => Pool::Install,
        3 | 4 => Pool::Global,
        5 => Pool::Callers(k as u32 + 1),
        6 => Pool::Scope(k as u32 + 1),
        _ => Pool::ParIter(k as u32 + 1),
    };
    Work::Panic { pool, threads: threads(r), job: j, other, at: r.below(1000) as u32, bad_index, rounds: r.pick(&[1, 1, 2, 3]) }
}

fn c05(r: &mut Rng) -> Work {
    let pool = match r.below(8) {
        0..=3 => Pool::Callers(1),
        4 | 5 => Pool::Scope(1),
        6 => Pool::ParIter(1),
        _ => Pool::Global,
    };
    let n = r.us(2, 4);
    // swarm: a run often concentrates on a few kinds
    let few: Vec<&str> = match r.below(12) {
        // the calls which are parallel in themselves
        0 | 1 => vec![r.pick(&["hullpar", "ihullpar", "contpar"])],
        2..=4 => vec![r.pick(KINDS)],
        _ => (0..r.us(1, 3)).map(|_| r.pick(KINDS)).collect(),
    };
    let focus = r.chance(2, 3);
    let large = r.chance(1, 12);
    let max = if large { r.us(60, 300) } else { r.pick(&[8usize, 12, 12, 20, 40]) };
    let mut callers: Vec<Vec<Op>> = vec![];
    for _ in 0..n {
        let mut ops: Vec<Op> = vec![];
        for _ in 0..r.us(1, if large { 2 } else { 4 }) {
            // a call like one made before, by the same or by another caller, but not the same
            let like = match r.below(6) {
                0 | 1 => ops.last().cloned(),
                2 => callers.last().map(|c| r.pick_ref(c).clone()),
                _ => None,
            };
            ops.push(match like {
                Some(o) => vary(r, &o),
                None => {
                    let k = if focus { r.pick(&few) } else { r.pick(KINDS) };
                    let o = gen_op(r, k, max);
                    hardly_any(r, o)
                }
            });
        }
        callers.push(ops);
    }
    let panic_at = if r.chance(1, 5) { r.us(1, 999) as u32 } else { 0 };
    Work::Conc { pool, threads: threads(r).min(4), callers, panic_at }
}

fn c12(r: &mut Rng) -> Work {
    let pool = match r.below(8) {
        0 | 1 => Pool::Callers(1),
        2 | 3 => Pool::Scope(1),
        4 => Pool::ParIter(1),
        5 => Pool::Install,
        _ => Pool::Global,
    };
    let few: Vec<&str> = (0..r.us(1, 3)).map(|_| r.pick(LAZY_KINDS)).collect();
    let focus = r.chance(1, 2);
    let max = if r.chance(1, 16) { r.us(60, 250) } else { r.pick(&[6usize, 10, 16, 30]) };
    let mut tasks: Vec<Task> = vec![];
    for _ in 0..r.us(1, 4) {
        let k = if focus { r.pick(&few) } else { r.pick(LAZY_KINDS) };
        let like = match k {
            "sweep" | "isweep" => k,
            _ => "rdp2",
        };
        let mut op = match tasks.last() {
            Some(t) if t.op.k == k && r.chance(1, 2) => vary(r, &t.op),
            _ => gen_op(r, like, max),
        };
        op.k = k.to_string();
        let inside = matches!(k, "sweep" | "isweep" | "apply2" | "apply3" | "lineapply" | "boxapply");
        let nested = if inside && r.chance(1, 2) {
            // often the very call it is made from
            let nk = match k {
                "sweep" | "isweep" if r.chance(1, 2) => k,
                "apply2" | "apply3" if r.chance(1, 2) => "apply",
                _ => r.pick(KINDS),
            };
            Some(gen_op(r, nk, max.min(12)))
        } else {
            None
        };
        let at = match k {
            "boxapply" | "lineapply" => r.us(0, 2),
            _ => r.us(0, max / 2),
        };
        tasks.push(Task { op, pieces: r.us(1, 6), nested, at, panics: inside && r.chance(1, 5) });
    }
    let n = if matches!(pool, Pool::Global | Pool::Install) { 1 } else { r.us(1, 4) };
    let callers = (0..n)
        .map(|_| {
            (0..r.us(2, 12))
                .map(|_| match r.below(12) {
                    0 => Act::Drop { task: r.below(8) as usize },
                    1 | 2 => {
                        let k = r.pick(KINDS);
                        Act::Call { op: gen_op(r, k, 12) }
                    }
                    _ => Act::Step { task: r.below(tasks.len() as u64) as usize, n: r.pick(&[1usize, 1, 1, 2, 3, 8]) },
                })
                .collect()
        })
        .collect();
    Work::Lazy { pool, threads: threads(r).min(4), tasks, callers }
}

fn c13(r: &mut Rng) -> Work {
    let bad = r.pick(&[0u8, 0, 1, 2, 3]);
    let mut kinds: Vec<String> = (0..r.us(1, 3)).map(|_| r.pick(KINDS).to_string()).collect();
    match bad {
        2 => kinds.push(r.pick(&["graham", "igraham", "ihullpar", "hullpar", "sweep", "isweep", "obj"]).to_string()),
        3 => kinds = vec!["obj".to_string(); r.us(1, 2)],
        _ => {}
    }
    let lazy = if bad < 2 { (0..r.us(0, 2)).map(|_| r.pick(LAZY_KINDS).to_string()).collect() } else { vec![] };
    let pool = if r.chance(1, 3) { Pool::Install } else { Pool::Global };
    let max = match r.below(24) {
        0 | 1 => r.us(60, 199),
        2 => r.us(301, 900),
        _ => r.pick(&[5usize, 9, 14]),
    };
    Work::Leak { pool, threads: threads(r).min(3), rounds: 64, kinds, lazy, seed: r.next(), max, varied: r.chance(1, 3), bad }
}

fn c06(r: &mut Rng) -> Work {
    let large = r.chance(1, 10);
    let n = if large { r.us(4, 12) } else { r.us(20, 60) };
    let max = if large { r.us(60, 300) } else { r.pick(&[8usize, 14, 14, 30]) };
    let sweepy = r.chance(1, 2);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        let o = if !ops.is_empty() && r.chance(1, 4) {
            let o = r.pick_ref(&ops).clone();
            vary(r, &o)
        } else {
            let k = if sweepy && r.chance(3, 4) { r.pick(SWEEP_KINDS) } else { r.pick(KINDS) };
            let o = gen_op(r, k, max);
            hardly_any(r, o)
        };
        ops.push(o);
    }
    let envs = (0..4)
        .map(|i| (r.next(), if i == 0 { 0 } else { r.pick(&[0u32, 0xA5, 0xFF, 0x3C | 0xFF00]) }))
        .collect();
    let prefix = (0..r.us(0, 6)).map(|_| { let k = r.pick(KINDS); gen_op(r, k, max) }).collect();
    Work::Env { ops, envs, prefix }
}

/// now and then only a few points are left, or none
fn hardly_any(r: &mut Rng, mut o: Op) -> Op {
    if r.chance(1, 40) {
        let n = r.us(0, 3);
        o.pts.truncate(n);
        if o.k != "shapes" {
            o.idx.retain(|i| *i < n);
            if o.k == "isweep" {
                o.idx.clear();
            }
        } else {
            o.idx.truncate(2 * n);
        }
        if n == 0 {
            o.odd.clear();
        }
    }
    o
}

/// the same kind of call on arguments that differ a little
fn vary(r: &mut Rng, o: &Op) -> Op {
    let mut o = o.clone();
    match r.below(8) {
        0 => o.s = 96 - o.s,
        1 => o.n = r.us(2, 9),
        2 => o.p = r.us(1, 20) as f64 / 2.0,
        3 => {}
        4 if o.idx.len() > 1 => {
            let (a, b) = (r.below(o.idx.len() as u64) as usize, r.below(o.idx.len() as u64) as usize);
            o.idx.swap(a, b);
            if o.k == "isweep" && o.idx.chunks_exact(2).any(|c| c[0] == c[1]) {
                o.idx.swap(a, b);
            }
        }
        5 if !matches!(o.k.as_str(), "gift" | "igift" | "arc") => {
            for p in o.pts.iter_mut() {
                p.rotate_left(1);
            }
        }
        _ if o.pts.is_empty() => {}
        _ => {
            for _ in 0..r.us(1, 4) {
                let i = r.below(o.pts.len() as u64) as usize;
                let a = r.below(3) as usize;
                let b = if r.chance(1, 2) { 0 } else { o.pts.len() - 1 };
                let d = [1.0, -1.0, 2.0, 0.5][r.below(4) as usize];
                let i = if r.chance(1, 4) { b } else { i };
                // floats stay multiples of 2^-14
                o.pts[i][a] += if o.pts[i][a].fract() == 0.0 && d == 0.5 { 3.0 } else { d };
            }
        }
    }
    o
}

/// a file of many kilobytes whose name alone fills the writer's buffer
fn long_name(r: &mut Rng) -> String {
    let n = r.pick(&[8190usize, 8191, 8192, 9000, 12345, 20000]) + r.us(0, 3);
    (0..n).map(|i| (b'a' + ((i / 7) % 26) as u8) as char).collect()
}

pub fn obj(r: &mut Rng, max_segs: usize) -> Obj {
    let vt = r.pick(&[0u8, 1, 2, 3]);
    let style = r.below(6);
    let coord = |r: &mut Rng| -> f64 {
        match style {
            0 => r.range(-2, 2) as f64,
            1 => r.range(-2, 2) as f64 / 2.0,
            2 => (r.f64() - 0.5) * 100.0,
            3 => match r.below(8) {
                0 => 0.1 + 0.2,
                1 => 0.3,
                2 => 1.0 / 3.0,
                3 => -1e-7,
                4 => 1e15 + 0.3,
                5 => 123456789.125,
                6 => 1e-20,
                _ => r.range(0, 2) as f64,
            },
            4 => (r.f64() * 2.0 - 1.0) * r.pick(&[1e-9, 1e-3, 1.0, 1e3, 1e9, 1e20]),
            // the limits of floating point and integer formats
            _ => {
                let v = match r.below(12) {
                    0 => f64::MAX,
                    1 => f32::MAX as f64,
                    2 => f64::MIN_POSITIVE,
                    3 => f32::MIN_POSITIVE as f64,
                    4 => 5e-324,
                    5 => 1e-45,
                    6 => 9007199254740993.0,
                    7 => 16777217.0,
                    8 => 2f64.powi(r.range(20, 70) as i32),
                    9 => f64::from_bits(r.below(0x7FE0_0000_0000_0000)),
                    10 => f32::from_bits(r.below(0x7F00_0000) as u32) as f64,
                    _ => r.range(0, 3) as f64,
                };
                let v = if vt % 2 == 1 && v > f32::MAX as f64 { f32::MAX as f64 } else { v };
                if r.chance(1, 2) {
                    -v
                } else {
                    v
                }
            }
        }
    };
    // 0.0 and -0.0 are the same vertex to one reader and two to another: no object has both
    let zero = if r.chance(1, 4) { -0.0 } else { 0.0 };
    let fix = |v: f64| if v == 0.0 || vt % 2 == 1 && v as f32 == 0.0 { zero } else { v };
    let total = match r.below(10) {
        0 => r.us(0, 2),
        1..=6 => r.us(1, 20.min(max_segs)),
        _ => r.us(1, max_segs),
    };
    let mut lines: Vec<Vec<Seg>> = vec![];
    let mut n = 0;
    let connected = r.chance(1, 2);
    while n < total {
        let k = r.us(1, 12).min(total - n);
        let mut l: Vec<Seg> = vec![];
        for _ in 0..k {
            let a = match l.last() {
                Some(s) if connected => s[1],
                _ => [fix(coord(r)), fix(coord(r)), fix(coord(r))],
            };
            let b = [fix(coord(r)), fix(coord(r)), fix(coord(r))];
            l.push([a, b]);
        }
        n += k;
        lines.push(l);
    }
    if r.chance(1, 8) {
        let at = r.below(lines.len() as u64 + 1) as usize;
        lines.insert(at, vec![]);
    }
    let mut name = r.pick(&["x", "lines", "", "na\u{ef}ve \u{2603} name", " x ", "v 1 2 3", "#1", "object_1", "a b", "an_object_with_a_rather_long_name_to_shift_the_buffer"]).to_string();
    if r.chance(1, 12) {
        name = long_name(r);
    }
    Obj { vt, name, lines }
}

fn old_content(r: &mut Rng) -> Option<String> {
    match r.below(4) {
        0 => None,
        1 => Some("o stale\nv 9 9 9\nv 8 8 8\nl 1 2\n".to_string()),
        2 => {
            let n = r.us(1, 1500);
            Some((0..n).map(|i| format!("v {i} 7 7\n")).collect())
        }
        _ => Some("x".repeat(r.us(0, 60_000))),
    }
}

const ERRS: &[i32] = &[
    libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EFBIG, libc::EROFS, libc::EACCES, libc::ESTALE, libc::EIO, libc::ENOSPC,
    libc::EDQUOT, libc::EAGAIN, libc::EPIPE, libc::EPERM, libc::ENOMEM, libc::EINVAL, libc::EBUSY, libc::ENXIO, libc::ETIMEDOUT,
    libc::EBADF, libc::ENOTSUP, libc::ECONNRESET,
];

fn benign(r: &mut Rng, p: &mut Plan) {
    match r.below(5) {
        0 => p.max_write = Some(r.pick(&[1u32, 2, 3, 7, 20, 100, 1000, 4096])),
        1 => p.eintr_every = Some(r.us(2, 6) as u32),
        2 => {
            p.max_write = Some(r.pick(&[1u32, 5, 64, 3000]));
            p.eintr_every = Some(r.us(2, 9) as u32);
        }
        3 => {
            for _ in 0..r.us(1, 3) {
                p.at.push((r.below(1000) as u32, Fault::Short(r.us(1, 5000) as u32)));
            }
        }
        _ => {}
    }
}

fn save(r: &mut Rng, prop: &str) -> Work {
    let max = r.pick(&[6usize, 40, 40, 300, 900]);
    let mut obj = obj(r, max);
    if prop == "C09" && obj.lines.is_empty() {
        obj.lines.push(vec![[[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]]]);
    }
    let mut path = r.pick(&["/simfs/out.obj", "/simfs/out.obj", "/simfs/sub/out.obj", "/simfs/a b.obj", "/simfs/noext"]).to_string();
    if r.chance(1, 4) {
        // relative to the working directory
        path = r.pick(&["out.obj", "./out.obj", "sub/out.obj", "../simfs/out.obj", "sub/../out.obj", "sub//out.obj", "a b", "-.obj"]).to_string();
    } else if r.chance(1, 12) {
        // as long as names may be
        path = format!("/simfs/{}", "n".repeat(r.pick(&[120usize, 251, 255])));
    }
    let mut old = old_content(r);
    let large = r.chance(1, 2500);
    if large {
        // more vertices than 16 bits can number
        let n = r.us(30_000, 36_000);
        let c = |r: &mut Rng| [r.range(-100, 100) as f64, r.range(-100, 100) as f64, r.range(-9, 9) as f64];
        let per = r.pick(&[1usize, 100, 40_000]);
        obj.lines = (0..n.div_ceil(per)).map(|_| (0..per.min(n)).map(|_| [c(r), c(r)]).collect()).collect();
    }
    let mut plan = Plan::default();
    let mut others = vec![FileImg { path: "/simfs/other.txt".into(), data: "keep this".into() }];
    if r.chance(1, 2) {
        others.push(FileImg { path: crate::disk::abs(&format!("{path}.bak")), data: "keep this too".into() });
        others.push(FileImg { path: "/simfs/op.obj".into(), data: "and this".into() });
    }
    let mut retries = 0;
    match prop {
        "C07" => {
            benign(r, &mut plan);
            retries = r.below(3) as u32;
        }
        "C08" => {
            retries = r.us(1, 2) as u32;
            if r.chance(1, 3) {
                benign(r, &mut plan);
            }
            let e = r.pick(ERRS);
            let at = if r.chance(1, 5) { 999 } else { r.below(1000) as u32 };
            match r.below(12) {
                0..=3 => plan.at.push((at, Fault::Errno(e))),
                4 | 5 => plan.at.push((at, Fault::Sticky(e))),
                6 => plan.at.push((at, Fault::Zero)),
                7 | 8 => plan.room = Some({ let m = r.pick(&[300, 30_000]); r.below(m) as u32 }),
                9 => plan.open_errno = Some(r.pick(&[libc::EACCES, libc::ENOENT, libc::EMFILE, libc::ENFILE, libc::EROFS, libc::ELOOP])),
                10 => path = "/simfs/missing/out.obj".into(),
                _ => path = "/simfs/isdir.obj".into(),
            }
            if path.contains("missing") || path.contains("isdir") {
                old = None;
                others.truncate(1);
            }
            if r.chance(1, 10) {
                plan.at.push((r.below(1000) as u32, Fault::Errno(r.pick(ERRS))));
            }
        }
        _ => {
            if r.chance(1, 3) {
                benign(r, &mut plan);
            }
            let at = r.below(1000) as u32;
            match r.below(8) {
                0 | 1 => plan.at.push((at, Fault::CrashBefore)),
                2 | 3 => plan.at.push((at, Fault::CrashAfter)),
                4..=6 => plan.at.push((at, Fault::Torn({ let m = r.pick(&[40, 8200]); r.below(m) as u32 }))),
                _ => {}
            }
        }
    }
    if large {
        plan.max_write = plan.max_write.map(|m| m.max(1000));
    }
    plan.at.sort_by_key(|x| x.0);
    Work::Save { obj, path, old, plan, others, retries }
}

fn c10(r: &mut Rng) -> Work {
    let n = r.us(2, 5);
    let max = r.pick(&[4usize, 10, 40, 250]);
    let objs: Vec<Vec<Obj>> = (0..n).map(|_| (0..r.us(1, 3)).map(|_| obj(r, max)).collect()).collect();
    let old = (0..n).map(|_| old_content(r)).collect();
    let mut plan = Plan::default();
    if r.chance(1, 2) {
        benign(r, &mut plan);
    }
    if r.chance(1, 3) {
        plan.at.push((r.below(1000) as u32, Fault::Errno(r.pick(ERRS))));
    }
    plan.at.sort_by_key(|x| x.0);
    let mut paths: Vec<String> = match r.below(3) {
        0 => vec![],
        1 => ["a.obj", "a.txt", "a", "a.b.obj", "a.obj.obj", "A.obj"].iter().map(|s| format!("/simfs/{s}")).collect(),
        _ => ["x/a.obj", "y/a.obj", "a.obj", "x/b.obj", "x/y/a.obj", "x/a"].iter().map(|s| format!("/simfs/{s}")).collect(),
    };
    if r.chance(1, 4) {
        // some of them relative to the working directory
        for p in paths.iter_mut() {
            if r.chance(1, 2) {
                *p = p["/simfs/".len()..].to_string();
            }
        }
    }
    r.shuffle(&mut paths);
    Work::Saves { objs, plan, old, paths, scope: r.chance(1, 2), threads: threads(r) }
}

fn c11(r: &mut Rng) -> Work {
    let pool = nested(r);
    let jobs = jobs(r, &pool, &|r| {
        if r.chance(2, 3) {
            Job::Hull(hull(r, &HullOpt { big: false, ..ANY }))
        } else {
            Job::Contain(contain(r, false))
        }
    });
    Work::Par { pool, threads: threads(r), jobs }
}

// ------------------------------------------------------------------ shrinking

fn without<T: Clone>(v: &[T], from: usize, n: usize) -> Vec<T> {
    let mut o = v[..from].to_vec();
    o.extend_from_slice(&v[from + n..]);
    o
}

/// block sizes n/2, n/4, .. 1
fn blocks(n: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut k = n;
    // (each of these becomes a copy of everything)
    while k > if n > 1000 { n / 100 } else { 0 } {
        let mut i = 0;
        while i < n {
            out.push((i, k.min(n - i)));
            i += k;
        }
        k /= 2;
    }
    out
}

fn shrink_hull(h: &Hull, min: usize) -> Vec<Hull> {
    let mut out = vec![];
    match &h.sel {
        None => {
            for (i, k) in blocks(h.pts.len()) {
                if h.pts.len() - k >= min {
                    out.push(Hull { pts: without(&h.pts, i, k), ..h.clone() });
                }
            }
        }
        Some(s) => {
            for (i, k) in blocks(s.len()) {
                let t = without(s, i, k);
                if trimmed(&t) >= min {
                    out.push(Hull { sel: Some(t), ..h.clone() });
                }
            }
            // forget vertices that are not selected
            let mut used: Vec<usize> = s.clone();
            used.sort_unstable();
            used.dedup();
            if used.len() < h.pts.len() {
                let pts = used.iter().map(|i| h.pts[*i]).collect();
                let sel = s.iter().map(|i| used.binary_search(i).unwrap()).collect();
                out.push(Hull { pts, sel: Some(sel), ..h.clone() });
            }
        }
    }
    if h.vt != 0 {
        out.push(Hull { vt: 0, ..h.clone() });
    }
    if h.place != Place::default() {
        out.push(Hull { place: Place::default(), ..h.clone() });
    }
    if h.exact {
        for d in [16.0, 2.0] {
            let pts: Vec<[f64; 2]> = h.pts.iter().map(|p| [(p[0] / d).round(), (p[1] / d).round()]).collect();
            if pts != h.pts {
                out.push(Hull { pts, ..h.clone() });
            }
        }
    }
    out
}

fn shrink_contain(c: &Contain) -> Vec<Contain> {
    let mut out = vec![];
    for (i, k) in blocks(c.b.len()) {
        out.push(Contain { b: without(&c.b, i, k), ..c.clone() });
    }
    for i in 0..c.a.len() {
        if c.a.len() > 3 {
            out.push(Contain { a: without(&c.a, i, 1), ..c.clone() });
        }
    }
    if c.vt != 0 {
        out.push(Contain { vt: 0, ..c.clone() });
    }
    if c.place != Place::default() {
        out.push(Contain { place: Place::default(), ..c.clone() });
    }
    out
}

fn shrink_job(j: &Job, min: usize) -> Vec<Job> {
    match j {
        Job::Hull(h) => shrink_hull(h, min).into_iter().map(Job::Hull).collect(),
        Job::Contain(c) => shrink_contain(c).into_iter().map(Job::Contain).collect(),
    }
}

fn shrink_pool(p: &Pool) -> Vec<Pool> {
    match p {
        Pool::Install | Pool::Global => vec![],
        Pool::Callers(k) => [vec![Pool::Global, Pool::Install], (1..*k).map(Pool::Callers).collect()].concat(),
        Pool::Scope(k) => [vec![Pool::Install], (1..*k).map(Pool::Scope).collect()].concat(),
        Pool::Join(k) => [vec![Pool::Install], (1..*k).map(Pool::Join).collect()].concat(),
        Pool::ParIter(k) => [vec![Pool::Install], (1..*k).map(Pool::ParIter).collect()].concat(),
    }
}

fn shrink_op(o: &crate::ops::Op) -> Vec<crate::ops::Op> {
    let mut out = vec![];
    for i in 0..o.odd.len() {
        out.push(crate::ops::Op { odd: without(&o.odd, i, 1), ..o.clone() });
    }
    match o.k.as_str() {
        "shapes" => {
            for (i, k) in blocks(o.idx.len() / 2) {
                out.push(crate::ops::Op { idx: without(&o.idx, 2 * i, 2 * k), ..o.clone() });
            }
        }
        "isweep" => {
            for (i, k) in blocks(o.idx.len() / 2) {
                out.push(crate::ops::Op { idx: without(&o.idx, 2 * i, 2 * k), ..o.clone() });
            }
        }
        "sweep" => {
            for (i, k) in blocks(o.pts.len() / 2) {
                if o.pts.len() > 2 * k {
                    out.push(crate::ops::Op { pts: without(&o.pts, 2 * i, 2 * k), ..o.clone() });
                }
            }
        }
        "igraham" | "igift" | "ihullpar" => {
            for (i, k) in blocks(o.idx.len()) {
                if o.idx.len() - k >= 5 {
                    out.push(crate::ops::Op { idx: without(&o.idx, i, k), ..o.clone() });
                }
            }
        }
        _ => {
            let min = if o.k == "gift" || o.k == "arc" { 5 } else { 2 };
            for (i, k) in blocks(o.pts.len()) {
                if o.pts.len() - k >= min {
                    out.push(crate::ops::Op { pts: without(&o.pts, i, k), ..o.clone() });
                }
            }
        }
    }
    out
}

fn shrink_obj(o: &Obj) -> Vec<Obj> {
    let mut out = vec![];
    for (i, k) in blocks(o.lines.len()) {
        out.push(Obj { lines: without(&o.lines, i, k), ..o.clone() });
    }
    let large = o.lines.len() > 1 && o.lines.iter().map(|l| l.len()).sum::<usize>() > 1000;
    for l in 0..if large { 0 } else { o.lines.len() } {
        for (i, k) in blocks(o.lines[l].len()) {
            let mut lines = o.lines.clone();
            lines[l] = without(&lines[l], i, k);
            out.push(Obj { lines, ..o.clone() });
        }
    }
    out
}

fn shrink_plan(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    for i in 0..p.at.len() {
        out.push(Plan { at: without(&p.at, i, 1), ..p.clone() });
    }
    if p.max_write.is_some() {
        out.push(Plan { max_write: None, ..p.clone() });
    }
    if p.eintr_every.is_some() {
        out.push(Plan { eintr_every: None, ..p.clone() });
    }
    if p.room.is_some() {
        out.push(Plan { room: None, ..p.clone() });
    }
    if p.open_errno.is_some() {
        out.push(Plan { open_errno: None, ..p.clone() });
    }
    out
}

/// smaller workloads to try, biggest steps first
pub fn shrink(w: &Work) -> Vec<Work> {
    let mut out = vec![];
    match w {
        Work::Par { pool, threads, jobs } => {
            for i in 0..jobs.len() {
                if jobs.len() > 1 {
                    out.push(Work::Par { pool: pool.clone(), threads: *threads, jobs: without(jobs, i, 1) });
                }
            }
            for p in shrink_pool(pool) {
                out.push(Work::Par { pool: p, threads: *threads, jobs: jobs.clone() });
            }
            for t in 1..*threads {
                out.push(Work::Par { pool: pool.clone(), threads: t, jobs: jobs.clone() });
            }
            for i in 0..jobs.len() {
                for j in shrink_job(&jobs[i], 0) {
                    let mut jobs = jobs.clone();
                    jobs[i] = j;
                    out.push(Work::Par { pool: pool.clone(), threads: *threads, jobs });
                }
            }
        }
        Work::NonFinite { pool, threads, job, bad, bad_selected } => {
            let mk = |pool: &Pool, t: u32, job: &Hull, bad: &[Bad]| Work::NonFinite {
                pool: pool.clone(),
                threads: t,
                job: job.clone(),
                bad: bad.to_vec(),
                bad_selected: *bad_selected,
            };
            for i in 0..bad.len() {
                if bad.len() > 1 {
                    out.push(mk(pool, *threads, job, &without(bad, i, 1)));
                }
            }
            for p in shrink_pool(pool) {
                out.push(mk(&p, *threads, job, bad));
            }
            for t in 1..*threads {
                out.push(mk(pool, t, job, bad));
            }
            // only the selection is shrunk, so that `bad` keeps its meaning
            let s = job.sel.clone().unwrap_or_else(|| (0..job.pts.len()).collect());
            for (i, k) in blocks(s.len()) {
                let t = without(&s, i, k);
                let keep = bad.iter().all(|Bad::NonFinite { at, .. }| t.contains(at) == *bad_selected);
                if trimmed(&t) >= 4 && keep {
                    out.push(mk(pool, *threads, &Hull { sel: Some(t), ..job.clone() }, bad));
                }
            }
        }
        Work::Panic { pool, threads, job, other, at, bad_index, rounds } => {
            let mk = |pool: &Pool, t: u32, job: &Job, other: &[Job], rounds: u32| Work::Panic {
                pool: pool.clone(),
                threads: t,
                job: job.clone(),
                other: other.to_vec(),
                at: *at,
                bad_index: *bad_index,
                rounds,
            };
            for i in 0..other.len() {
                out.push(mk(pool, *threads, job, &without(other, i, 1), *rounds));
            }
            for p in shrink_pool(pool) {
                out.push(mk(&p, *threads, job, other, *rounds));
            }
            for t in 1..*threads {
                out.push(mk(pool, t, job, other, *rounds));
            }
            for k in 1..*rounds {
                out.push(mk(pool, *threads, job, other, k));
            }
            for j in shrink_job(job, 5) {
                let empty = matches!(&j, Job::Contain(c) if c.b.is_empty());
                if !empty {
                    out.push(mk(pool, *threads, &j, other, *rounds));
                }
            }
        }
        Work::Conc { pool, threads, callers, panic_at } => {
            let mk = |pool: &Pool, t: u32, callers: Vec<Vec<crate::ops::Op>>, panic_at: u32| Work::Conc {
                pool: pool.clone(),
                threads: t,
                callers,
                panic_at,
            };
            for i in 0..callers.len() {
                if callers.len() > 1 {
                    out.push(mk(pool, *threads, without(callers, i, 1), *panic_at));
                }
            }
            if *panic_at != 0 {
                out.push(mk(pool, *threads, callers.clone(), 0));
            }
            for i in 0..callers.len() {
                for k in 0..callers[i].len() {
                    let mut c = callers.clone();
                    c[i].remove(k);
                    out.push(mk(pool, *threads, c, *panic_at));
                }
            }
            for t in 1..*threads {
                out.push(mk(pool, t, callers.clone(), *panic_at));
            }
            for i in 0..callers.len() {
                for k in 0..callers[i].len() {
                    for o in shrink_op(&callers[i][k]) {
                        let mut c = callers.clone();
                        c[i][k] = o;
                        out.push(mk(pool, *threads, c, *panic_at));
                    }
                }
            }
        }
        Work::Lazy { pool, threads, tasks, callers } => {
            let mk = |tasks: Vec<Task>, callers: Vec<Vec<Act>>, t: u32| Work::Lazy { pool: pool.clone(), threads: t, tasks, callers };
            for i in 0..callers.len() {
                if callers.len() > 1 {
                    out.push(mk(tasks.clone(), without(callers, i, 1), *threads));
                }
            }
            // a task that is not the last one keeps its number
            for i in (0..tasks.len()).rev() {
                if tasks.len() > 1 {
                    let re = |t: &usize| if *t % tasks.len() > i { *t % tasks.len() - 1 } else { *t % tasks.len() };
                    let c = callers
                        .iter()
                        .map(|c| {
                            c.iter()
                                .filter(|a| !matches!(a, Act::Step { task, .. } | Act::Drop { task } if *task % tasks.len() == i))
                                .map(|a| match a {
                                    Act::Step { task, n } => Act::Step { task: re(task), n: *n },
                                    Act::Drop { task } => Act::Drop { task: re(task) },
                                    a => a.clone(),
                                })
                                .collect()
                        })
                        .collect();
                    out.push(mk(without(tasks, i, 1), c, *threads));
                }
                let t = &tasks[i];
                let mut put = |x: Task| {
                    let mut v = tasks.clone();
                    v[i] = x;
                    out.push(mk(v, callers.clone(), *threads));
                };
                if t.nested.is_some() {
                    put(Task { nested: None, ..t.clone() });
                }
                if t.panics {
                    put(Task { panics: false, ..t.clone() });
                }
                if t.pieces > 1 {
                    put(Task { pieces: 1, ..t.clone() });
                    put(Task { pieces: 2, ..t.clone() });
                }
                for o in shrink_op(&t.op) {
                    if o.pts.len() >= 4 {
                        put(Task { op: o, ..t.clone() });
                    }
                }
            }
            for i in 0..callers.len() {
                for (k, n) in blocks(callers[i].len()) {
                    let mut c = callers.clone();
                    c[i] = without(&callers[i], k, n);
                    out.push(mk(tasks.clone(), c, *threads));
                }
            }
            for t in 1..*threads {
                out.push(mk(tasks.clone(), callers.clone(), t));
            }
        }
        Work::Leak { pool, threads, rounds, kinds, lazy, seed, max, varied, bad } => {
            let mk = |threads: u32, kinds: Vec<String>, lazy: Vec<String>, max: usize, varied: bool, bad: u8| Work::Leak {
                pool: pool.clone(),
                threads,
                rounds: *rounds,
                kinds,
                lazy,
                seed: *seed,
                max,
                varied,
                bad,
            };
            for i in 0..kinds.len() {
                out.push(mk(*threads, without(kinds, i, 1), lazy.clone(), *max, *varied, *bad));
            }
            for i in 0..lazy.len() {
                out.push(mk(*threads, kinds.clone(), without(lazy, i, 1), *max, *varied, *bad));
            }
            if *bad > 0 {
                out.push(mk(*threads, kinds.clone(), lazy.clone(), *max, *varied, 0));
            }
            if *threads > 1 {
                out.push(mk(1, kinds.clone(), lazy.clone(), *max, *varied, *bad));
            }
            if *varied {
                out.push(mk(*threads, kinds.clone(), lazy.clone(), *max, false, *bad));
            }
            if *max > 3 {
                out.push(mk(*threads, kinds.clone(), lazy.clone(), 3, *varied, *bad));
            }
        }
        Work::Scale { install, threads, stack_kib, jobs } => {
            let mk = |install: bool, threads: u32, jobs: Vec<Big>| Work::Scale { install, threads, stack_kib: *stack_kib, jobs };
            for i in 0..jobs.len() {
                if jobs.len() > 1 {
                    out.push(mk(*install, *threads, without(jobs, i, 1)));
                }
                let mut with = |f: &dyn Fn(&mut Big)| {
                    let mut j = jobs.clone();
                    f(&mut j[i]);
                    if j != *jobs {
                        out.push(mk(*install, *threads, j));
                    }
                };
                with(&|b| b.n = (b.n / 2).max(4));
                with(&|b| b.n = (b.n - b.n / 8).max(4));
                with(&|b| b.m = (b.m / 2).max(1));
                with(&|b| b.odd = 0);
            }
            if *install {
                out.push(mk(false, *threads, jobs.clone()));
            }
            if *threads > 1 {
                out.push(mk(*install, 1, jobs.clone()));
            }
        }
        Work::Env { ops, envs, prefix } => {
            let mk = |ops: Vec<crate::ops::Op>, envs: Vec<(u64, u32)>, prefix: Vec<crate::ops::Op>| Work::Env { ops, envs, prefix };
            if !prefix.is_empty() {
                out.push(mk(ops.clone(), envs.clone(), vec![]));
            }
            for (i, k) in blocks(ops.len()) {
                if k < ops.len() {
                    out.push(mk(without(ops, i, k), envs.clone(), prefix.clone()));
                }
            }
            for i in 0..envs.len() {
                if envs.len() > 1 {
                    out.push(mk(ops.clone(), without(envs, i, 1), prefix.clone()));
                }
            }
            if ops.len() <= 2 {
                for i in 0..ops.len() {
                    for o in shrink_op(&ops[i]) {
                        let mut v = ops.clone();
                        v[i] = o;
                        out.push(mk(v, envs.clone(), prefix.clone()));
                    }
                }
            }
        }
        Work::Save { obj, path, old, plan, others, retries } => {
            let mk = |obj: &Obj, old: &Option<String>, plan: &Plan, others: &[FileImg], retries: u32| Work::Save {
                obj: obj.clone(),
                path: path.clone(),
                old: old.clone(),
                plan: plan.clone(),
                others: others.to_vec(),
                retries,
            };
            for p in shrink_plan(plan) {
                out.push(mk(obj, old, &p, others, *retries));
            }
            if old.is_some() {
                out.push(mk(obj, &None, plan, others, *retries));
            }
            if let Some(o) = old {
                if o.len() > 40 && o.is_ascii() {
                    out.push(mk(obj, &Some(o[..o.len() / 2].to_string()), plan, others, *retries));
                }
            }
            if !others.is_empty() {
                out.push(mk(obj, old, plan, &others[..others.len() - 1], *retries));
            }
            for k in 0..*retries {
                out.push(mk(obj, old, plan, others, k));
            }
            for o in shrink_obj(obj) {
                out.push(mk(&o, old, plan, others, *retries));
            }
        }
        Work::Saves { objs, plan, old, paths, scope, threads } => {
            let mk = |objs: Vec<Vec<Obj>>, plan: &Plan, old: &[Option<String>], t: u32| Work::Saves {
                paths: paths.clone(),
                objs,
                plan: plan.clone(),
                old: old.to_vec(),
                scope: *scope,
                threads: t,
            };
            for i in 0..objs.len() {
                if objs.len() > 1 {
                    let old = if old.len() == objs.len() { without(old, i, 1) } else { old.clone() };
                    out.push(match mk(without(objs, i, 1), plan, &old, *threads) {
                        Work::Saves { objs, plan, old, paths, scope, threads } if i < paths.len() => {
                            Work::Saves { objs, plan, old, paths: without(&paths, i, 1), scope, threads }
                        }
                        w => w,
                    });
                }
            }
            for p in shrink_plan(plan) {
                out.push(mk(objs.clone(), &p, old, *threads));
            }
            for i in 0..old.len() {
                if old[i].is_some() {
                    let mut v = old.clone();
                    v[i] = None;
                    out.push(mk(objs.clone(), plan, &v, *threads));
                }
            }
            for t in 1..*threads {
                out.push(mk(objs.clone(), plan, old, t));
            }
            for i in 0..objs.len() {
                for k in 0..objs[i].len() {
                    if objs[i].len() > 1 {
                        let mut v = objs.clone();
                        v[i].remove(k);
                        out.push(mk(v, plan, old, *threads));
                    }
                    for o in shrink_obj(&objs[i][k]) {
                        let mut v = objs.clone();
                        v[i][k] = o;
                        out.push(mk(v, plan, old, *threads));
                    }
                }
            }
        }
    }
    out
}
