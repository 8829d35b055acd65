//! Oracle geometry in f64. For integer coordinates below 2^20 every predicate here is exact.
pub type P = (f64, f64);

pub fn cross(a: P, b: P, c: P) -> f64 { (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0) }
pub fn sub(a: P, b: P) -> P { (a.0 - b.0, a.1 - b.1) }
pub fn add(a: P, b: P) -> P { (a.0 + b.0, a.1 + b.1) }
pub fn dist(a: P, b: P) -> f64 { ((a.0 - b.0).powi(2) + (a.1 - b.1).powi(2)).sqrt() }

pub fn on_seg(p: P, a: P, b: P) -> bool {
    cross(a, b, p) == 0.0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
/// closed segments share a point
pub fn seg_touch(a: P, b: P, c: P, d: P) -> bool {
    let s = |x: f64| if x > 0.0 { 1 } else if x < 0.0 { -1 } else { 0 };
    let (o1, o2, o3, o4) = (s(cross(a, b, c)), s(cross(a, b, d)), s(cross(c, d, a)), s(cross(c, d, b)));
    if o1 * o2 < 0 && o3 * o4 < 0 { return true; }
    on_seg(c, a, b) || on_seg(d, a, b) || on_seg(a, c, d) || on_seg(b, c, d)
}
pub fn parallel(a: P, b: P, c: P, d: P) -> bool { (b.0 - a.0) * (d.1 - c.1) - (b.1 - a.1) * (d.0 - c.0) == 0.0 }

pub fn pt_seg(p: P, a: P, b: P) -> f64 {
    let (dx, dy) = sub(b, a);
    let l = dx * dx + dy * dy;
    let t = if l == 0.0 { 0.0 } else { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l).clamp(0.0, 1.0) };
    dist(p, (a.0 + t * dx, a.1 + t * dy))
}
pub fn seg_seg(a: P, b: P, c: P, d: P) -> f64 {
    if seg_touch(a, b, c, d) { return 0.0; }
    pt_seg(a, c, d).min(pt_seg(b, c, d)).min(pt_seg(c, a, b)).min(pt_seg(d, a, b))
}
pub fn edges(p: &[P]) -> impl Iterator<Item = (P, P)> + '_ { (0..p.len()).map(move |i| (p[i], p[(i + 1) % p.len()])) }

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Loc { In, On, Out }
/// exact crossing-number test
pub fn pip(poly: &[P], q: P) -> Loc {
    let mut inside = false;
    for (a, b) in edges(poly) {
        if on_seg(q, a, b) { return Loc::On; }
        if (a.1 > q.1) != (b.1 > q.1) {
            // orientation test instead of division
            let c = cross(a, b, q);
            if (b.1 > a.1 && c > 0.0) || (b.1 < a.1 && c < 0.0) { inside = !inside; }
        }
    }
    if inside { Loc::In } else { Loc::Out }
}
pub fn border_dist(poly: &[P], q: P) -> f64 { edges(poly).map(|(a, b)| pt_seg(q, a, b)).fold(f64::MAX, f64::min) }
pub fn borders_touch(p: &[P], q: &[P]) -> bool { edges(p).any(|(a, b)| edges(q).any(|(c, d)| seg_touch(a, b, c, d))) }
pub fn borders_dist(p: &[P], q: &[P]) -> f64 {
    let mut m = f64::MAX;
    for (a, b) in edges(p) { for (c, d) in edges(q) { m = m.min(seg_seg(a, b, c, d)); } }
    m
}
/// closed regions share a point
pub fn regions_touch(p: &[P], q: &[P]) -> bool { borders_touch(p, q) || pip(p, q[0]) != Loc::Out || pip(q, p[0]) != Loc::Out }
/// q lies in the open interior of p
pub fn strictly_inside(q: &[P], p: &[P]) -> bool { !borders_touch(p, q) && pip(p, q[0]) == Loc::In }
/// closed segment meets closed region
pub fn seg_region_touch(a: P, b: P, p: &[P]) -> bool { edges(p).any(|(c, d)| seg_touch(a, b, c, d)) || pip(p, a) != Loc::Out }

pub fn area2(p: &[P]) -> f64 { edges(p).map(|(a, b)| a.0 * b.1 - b.0 * a.1).sum() }
pub fn area(p: &[P]) -> f64 { area2(p) / 2.0 }
pub fn perimeter(p: &[P]) -> f64 { edges(p).map(|(a, b)| dist(a, b)).sum() }
pub fn centroid(p: &[P]) -> P {
    let o = p[0];
    let (mut x, mut y, mut s) = (0.0, 0.0, 0.0);
    for (a, b) in edges(p) {
        let (a, b) = (sub(a, o), sub(b, o));
        let c = a.0 * b.1 - b.0 * a.1;
        s += c; x += (a.0 + b.0) * c; y += (a.1 + b.1) * c;
    }
    (o.0 + x / (3.0 * s), o.1 + y / (3.0 * s))
}
pub fn bbox(p: &[P]) -> (f64, f64, f64, f64) {
    p.iter().fold((f64::MAX, f64::MAX, f64::MIN, f64::MIN), |b, q| (b.0.min(q.0), b.1.min(q.1), b.2.max(q.0), b.3.max(q.1)))
}
pub fn diameter(p: &[P]) -> f64 { let mut m = 0.0f64; for a in p { for b in p { m = m.max(dist(*a, *b)); } } m }
pub fn is_simple(p: &[P]) -> bool {
    let n = p.len();
    if n < 3 { return false; }
    for i in 0..n { for j in i + 1..n {
        if p[i] == p[j] { return false; }
        let (a, b) = (p[i], p[(i + 1) % n]);
        let (c, d) = (p[j], p[(j + 1) % n]);
        if j == i + 1 { if on_seg(d, a, b) || on_seg(a, c, d) { return false; } }
        else if i == 0 && j == n - 1 { if on_seg(c, a, b) || on_seg(b, c, d) { return false; } }
        else if seg_touch(a, b, c, d) { return false; }
    } }
    area2(p) != 0.0
}
pub fn has_collinear(p: &[P]) -> bool { let n = p.len(); (0..n).any(|i| cross(p[i], p[(i + 1) % n], p[(i + 2) % n]) == 0.0) }
/// convex hull (strict), counter-clockwise
pub fn hull(p: &[P]) -> Vec<P> {
    let mut v = p.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    if v.len() < 3 { return v; }
    let half = |it: &mut dyn Iterator<Item = P>| { let mut h: Vec<P> = vec![]; for q in it { while h.len() >= 2 && cross(h[h.len() - 2], h[h.len() - 1], q) <= 0.0 { h.pop(); } h.push(q); } h.pop(); h };
    let mut l = half(&mut v.iter().copied());
    let u = half(&mut v.iter().rev().copied());
    l.extend(u);
    l
}
pub fn rect_poly(b: (f64, f64, f64, f64)) -> Vec<P> { vec![(b.0, b.1), (b.2, b.1), (b.2, b.3), (b.0, b.3)] }
/// rigid transform: rotate by r then translate
pub fn rt(p: P, r: f64, t: P) -> P { let (s, c) = r.sin_cos(); (c * p.0 - s * p.1 + t.0, s * p.0 + c * p.1 + t.1) }
/// largest inscribed circle radius, crude lower bound by sampling
pub fn inradius_lb(p: &[P]) -> f64 {
    let b = bbox(p);
    let mut m = 0.0f64;
    for i in 1..24 { for j in 1..24 {
        let q = (b.0 + (b.2 - b.0) * i as f64 / 24.0, b.1 + (b.3 - b.1) * j as f64 / 24.0);
        if pip(p, q) == Loc::In { m = m.max(border_dist(p, q)); }
    } }
    m
}
