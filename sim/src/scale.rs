//! C14: large arguments of awkward shapes.  What a call needs of the two resources that end a process
//! when they run out, the stack of its threads and memory, is limited (the fault is a thread with
//! little stack) and measured.
use crate::case::*;
use crate::ops::{Op, KINDS};
use crate::rng::Rng;

/// components that are no number, infinite, overflow in a product, or vanish in one
pub const ODD: [f64; 6] = [f64::NAN, f64::INFINITY, 1e300, 3e38, 1e-300, 1e-42];

pub const SHAPES: u8 = 16;
pub const EDGES: u8 = 9;

/// the points of a shape
fn points(b: &Big, r: &mut Rng) -> Vec<[f64; 3]> {
    let n = b.n.max(4);
    let nf = n as f64;
    let shape = if matches!(b.k.as_str(), "gift" | "igift" | "arc") {
        // points in general position only
        [3, 6][(b.shape % 2) as usize]
    } else {
        b.shape % SHAPES
    };
    (0..n)
        .map(|i| {
            let x = i as f64;
            let sign = if i % 2 == 0 { 1.0 } else { -1.0 };
            let z = ((i * 7) % 11) as f64;
            match shape {
                // growing and shrinking zigzags
                0 => [x, sign * x, 0.0],
                1 => [x, sign * (nf - x), x],
                // a spiral, and a polygon with a corner every few points
                2 => {
                    let a = x * 0.3;
                    [a.cos() * (1.0 + x), a.sin() * (1.0 + x), x]
                }
                3 => {
                    let a = std::f64::consts::TAU * x / nf;
                    [a.cos() * 1000.0, a.sin() * 1000.0, z]
                }
                // on one line, from one end to the other and back and forth
                4 => [x, 2.0 * x, 3.0 * x],
                5 => [sign * x, sign * x, 0.0],
                6 => [r.f64() * 1000.0, r.f64() * 1000.0, r.f64() * 1000.0],
                // few different points
                7 => [(i % 3) as f64, (i % 2) as f64, 0.0],
                8 => [1.0, 1.0, 1.0],
                // a staircase, a comb, a curve, a random walk without the walk
                9 => [(i / 2) as f64, ((i + 1) / 2) as f64, 0.0],
                10 => [x, if i % 2 == 0 { 0.0 } else { 50.0 }, 0.0],
                11 => [x, x * x / nf, x],
                12 => [x, (r.f64() - 0.5) * 3.0, 0.0],
                // steps of very different size
                13 => [(2.0f64).powi((i % 60) as i32 - 30), x, sign],
                // integer points, each many times
                14 => [r.range(-20, 20) as f64, r.range(-20, 20) as f64, r.range(-5, 5) as f64],
                // separate short edges, side by side
                _ => [(i / 2) as f64, if i % 2 == 0 { 0.0 } else { 1.0 }, 0.0],
            }
        })
        .collect()
}

/// pairs of vertices
fn edges(b: &Big, n: usize, r: &mut Rng) -> Vec<usize> {
    let path: Vec<usize> = (0..n - 1).flat_map(|i| [i, i + 1]).collect();
    match b.edges % EDGES {
        0 => path,
        1 => path.into_iter().rev().collect(),
        2 => {
            let mut e: Vec<usize> = (0..n - 1).collect();
            r.shuffle(&mut e);
            e.into_iter().flat_map(|i| if i % 3 == 0 { [i + 1, i] } else { [i, i + 1] }).collect()
        }
        // one cycle
        3 => (0..n).flat_map(|i| [i, (i + 1) % n]).collect(),
        // a star
        4 => (1..n).flat_map(|i| [0, i]).collect(),
        // small loops
        5 => (0..n / 3).flat_map(|i| [3 * i, 3 * i + 1, 3 * i + 1, 3 * i + 2, 3 * i + 2, 3 * i]).collect(),
        // a comb: a path with a tooth at every vertex
        6 => (0..n / 2 - 1).flat_map(|i| [2 * i, 2 * i + 2, 2 * i, 2 * i + 1]).collect(),
        // separate edges
        7 => (0..n / 2).flat_map(|i| [2 * i, 2 * i + 1]).collect(),
        // anything
        _ => (0..n)
            .flat_map(|_| {
                let a = r.us(0, n - 1);
                [a, (a + r.us(1, n - 1)) % n]
            })
            .collect(),
    }
}

pub fn big_op(b: &Big) -> Op {
    let mut r = Rng::new(b.seed);
    let r = &mut r;
    let mut pts = points(b, r);
    let mut n = pts.len();
    if b.k == "sweep" && n % 2 == 1 {
        pts.pop();
        n -= 1;
    }
    let mut p = b.p;
    if b.k.starts_with("disc") {
        // about b.m samples
        let len: f64 = pts.windows(2).map(|w| (0..3).map(|k| (w[0][k] - w[1][k]).powi(2)).sum::<f64>().sqrt()).sum();
        p = match b.m {
            // no samples between the points
            0 => f64::INFINITY,
            1 => f64::NAN,
            2 => -1.0,
            m => (len / m as f64 / 10.0).max(1e-6),
        };
    }
    if b.odd > 0 {
        let v = ODD[(b.odd - 1) as usize % ODD.len()];
        for _ in 0..r.pick(&[1, 1, 2, 5, n]) {
            let i = r.below(n as u64) as usize;
            let c = r.below(3) as usize;
            pts[i][c] = if r.chance(1, 3) { -v } else { v };
        }
        if r.chance(1, 4) {
            p = r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, v]);
        }
    }
    let idx = match b.k.as_str() {
        "shapes" => {
            let mut e = edges(b, n, r);
            if r.chance(1, 3) {
                // the numbers of the vertices need not be small
                let f = r.pick(&[7usize, 1000, 20_000_000 / n]);
                e.iter_mut().for_each(|i| *i *= f);
            }
            e
        }
        "isweep" => edges(b, n, r),
        "igraham" | "ihullpar" | "igift" if b.edges % 2 == 0 => {
            let mut v: Vec<usize> = (0..n).collect();
            r.shuffle(&mut v);
            v
        }
        _ => (0..n).collect(),
    };
    Op { k: b.k.clone(), s: b.s, pts, idx, n: b.m, p, odd: vec![] }
}

/// about how many points may an operation get?
fn limit(b: &Big) -> usize {
    match b.k.as_str() {
        // every crossing is a result
        "sweep" => match b.shape {
            3 | 4 | 9 | 10 | 12 | 15 => 1500,
            _ => 120,
        },
        "selfint" => match b.shape {
            3 | 9 | 10 | 11 | 15 => 1500,
            _ => 120,
        },
        "isweep" => match (b.edges, b.shape) {
            (0 | 2 | 3 | 7, 3 | 9 | 10 | 15) => 1500,
            _ => 100,
        },
        // quadratic in bad cases
        "rdp2" | "rdp3" | "irdp2" | "irdp3" => 2500,
        "gift" | "igift" | "contpt" | "cont" | "contpar" => 1200,
        "vw2" | "vw3" => 8000,
        "line2" | "ray" | "dist" => 4000,
        "hullpar" | "ihullpar" => 8000,
        "obj" => 3000,
        _ => 12_000,
    }
}

pub fn gen(r: &mut Rng) -> Work {
    let deep = ["rdp2", "rdp3", "irdp2", "irdp3", "shapes", "isweep", "sweep", "vw2", "vw3", "hullpar", "ihullpar", "arc"];
    let jobs = (0..r.us(1, 2))
        .map(|_| {
            let k = if r.chance(1, 2) { r.pick(&deep) } else { r.pick(KINDS) };
            let mut b = Big {
                k: k.to_string(),
                s: if r.chance(1, 2) { 64 } else { 32 },
                shape: r.below(SHAPES as u64) as u8,
                edges: r.below(EDGES as u64) as u8,
                n: 0,
                m: 0,
                p: r.pick(&[0.0001, 0.01, 0.5, 3.0]),
                seed: r.next(),
                // (how many samples are there of an infinitely long line?)
                odd: if r.chance(1, 4) && !k.starts_with("disc") && k != "arc" { r.us(1, ODD.len()) as u8 } else { 0 },
            };
            let max = limit(&b);
            b.n = if r.chance(1, 2) { r.us(max / 2, max) } else { r.us(4, max) };
            b.m = match k {
                "hullpar" | "ihullpar" => r.pick(&[1usize, 2, 3, 5, 16, 100, 1000]).max(b.n / 400),
                "disc2" | "disc3" if r.chance(1, 4) => r.us(0, 2),
                "disc2" | "disc3" => r.us(10, 20_000),
                _ => r.us(1, b.n),
            };
            b
        })
        .collect::<Vec<_>>();
    // a large pool has many parts of a result in memory at the same time
    let many = jobs.iter().any(|b| b.k == "hullpar" || b.k == "ihullpar") && r.chance(1, 4);
    Work::Scale {
        install: r.chance(1, 3),
        threads: if many { r.pick(&[16, 24, 40]) } else { r.pick(&[1, 2, 3, 4]) },
        stack_kib: r.pick(&[STACK_KIB, STACK_KIB, 128, 256]),
        jobs,
    }
}

/// the smallest stack that has to be enough
pub const STACK_KIB: u32 = 64;
