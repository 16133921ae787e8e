//! Reference models: exact integer geometry.
pub type P = (i64, i64);

pub fn cross(o: P, a: P, b: P) -> i64 {
    (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
}

/// strictly convex hull, counter clockwise, starting at the lowest x (then lowest y) point
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut p = pts.to_vec();
    p.sort_unstable();
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let mut h: Vec<P> = vec![];
    for pass in 0..2 {
        let start = h.len();
        let it: Box<dyn Iterator<Item = &P>> = if pass == 0 { Box::new(p.iter()) } else { Box::new(p.iter().rev()) };
        for q in it {
            while h.len() >= start + 2 && cross(h[h.len() - 2], h[h.len() - 1], *q) <= 0 {
                h.pop();
            }
            h.push(*q);
        }
        h.pop();
    }
    h
}

/// is `q` inside or on the boundary of the strictly convex counter clockwise polygon `h`
pub fn inside(h: &[P], q: P) -> bool {
    (0..h.len()).all(|i| cross(h[i], h[(i + 1) % h.len()], q) >= 0)
}

/// all points on one line?
pub fn degenerate(pts: &[P]) -> bool {
    hull(pts).len() < 3
}
