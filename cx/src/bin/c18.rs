use cx::*;
use jagua_rs::geometry::geo_traits::Shape;
use jagua_rs::util::polygon_simplification::{simplify_shape, PolySimplMode as M};

/// two non-adjacent edges cross by a clear margin
fn crosses_itself(p: &[P], tol: f64) -> bool {
    let n = p.len();
    for i in 0..n { for j in i + 2..n {
        if i == 0 && j == n - 1 { continue; }
        let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
        let o = |a: P, b: P, c: P| cross(a, b, c) / dist(a, b);
        let (x, y, z, w) = (o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b));
        if x * y < 0.0 && z * w < 0.0 && x.abs().min(y.abs()).min(z.abs()).min(w.abs()) > tol { return true; }
    } }
    false
}
/// every point of `a` (vertices and points along the border) is in `b`, up to tol
fn within(a: &[P], b: &[P], tol: f64) -> Option<P> {
    for (x, y) in edges(a) { for k in 0..8 { let t = k as f64 / 8.0; let q = (x.0 + t * (y.0 - x.0), x.1 + t * (y.1 - x.1)); if pip(b, q) == Loc::Out && border_dist(b, q) > tol { return Some(q); } } }
    // no part of b's border lies well inside a's... i.e. b's outside does not cut into a
    for (x, y) in edges(b) { for k in 0..8 { let t = k as f64 / 8.0; let q = (x.0 + t * (y.0 - x.0), x.1 + t * (y.1 - x.1)); if pip(a, q) == Loc::In && border_dist(a, q) > tol { return Some(q); } } }
    None
}
fn check(p: Vec<P>, mode: M, delta: f64) -> Result<&'static str, String> {
    let s = sp(&p);
    let g = simplify_shape(&s, mode, delta as f32);
    let q = pts(&g); let o = pts(&s);
    let d = diameter(&p); let tol = 2e-4 * d;
    let ctx = || format!("{mode:?} {delta} {o:?} -> {q:?}");
    ensure!(q.len() <= o.len() && q.len() >= 3, "vertex count {}", ctx());
    ensure!(!crosses_itself(&q, tol), "result crosses itself: {}", ctx());
    let (a0, a1) = (area(&o), area(&q));
    ensure!(a1 > 0.0 && (a1 - g.area() as f64).abs() <= 1e-4 * a0, "area {} {}", g.area(), ctx());
    ensure!((a1 - a0).abs() / a0 <= delta + 1e-4, "area changed by {} (allowed {delta}): {}", (a1 - a0).abs() / a0, ctx());
    let bad = if mode == M::Inflate { within(&o, &q, tol) } else { within(&q, &o, tol) };
    ensure!(bad.is_none(), "not a {} of the original, see {:?}: {}", if mode == M::Inflate { "superset" } else { "subset" }, bad.unwrap(), ctx());
    ensure!(rb(&g.bbox()) == bbox(&q), "bounding box {}", ctx());
    Ok(if q.len() < o.len() { "simplified" } else { "unchanged" })
}
fn jagged(r: &mut Rng) -> Vec<P> {
    let k = r.int(6, 26) as usize;
    loop {
        let p: Vec<P> = (0..k).map(|i| { let a = (i as f64 + 0.4 * r.f()) / k as f64 * 6.2831853; let rad = r.range(5.0, 12.0); ((20.0 + rad * a.cos()) as f32 as f64, (20.0 + rad * a.sin()) as f32 as f64) }).collect();
        if is_simple(&p) { return p; }
    }
}
fn main() {
    main_with("C18", vec![
        group("integer", "simplifying an integer polygon (with collinear vertices too) gives a simple polygon with no more vertices, containing or contained in the original as asked, within the area budget", (6000, 100000), |_, r| {
            let n = r.int(4, 30); let mut p = int_poly(r, n);
            // insert collinear vertices
            if r.chance(0.5) { for _ in 0..1 + r.us(3) { let i = r.us(p.len()); let (a, b) = (p[i], p[(i + 1) % p.len()]); let m = ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0); if m != a && m != b { p.insert(i + 1, m); } } }
            let mode = *r.pick(&[M::Inflate, M::Deflate]); let delta = *r.pick(&[0.0, 0.001, 0.01, 0.05, 0.2, 0.5]);
            check(p, mode, delta)
        }),
        group("jagged", "the same for jagged polygons with up to 26 vertices", (6000, 100000), |_, r| {
            let p = jagged(r);
            let mode = *r.pick(&[M::Inflate, M::Deflate]); let delta = *r.pick(&[0.0, 0.001, 0.01, 0.03, 0.1, 0.3]);
            check(p, mode, delta)
        }),
        group("modes", "flipping the mode twice is the identity and the two modes differ", (1, 1), |_, _| {
            ensure!(M::Inflate.flip() == M::Deflate && M::Deflate.flip() == M::Inflate, "flip");
            Ok("ok")
        }),
    ]);
}
