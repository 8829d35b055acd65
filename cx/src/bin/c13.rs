use cx::*;
use jagua_rs::geometry::geo_enums::GeoPosition as G;
use jagua_rs::geometry::geo_traits::DistanceFrom;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;

/// all four distance operations agree with the exact value
fn four<T: DistanceFrom<U> + std::fmt::Debug, U: std::fmt::Debug>(a: &T, b: &U, inside: bool, border: f64, s: f64) -> Result<(), String> {
    let tol = 2e-4 * s;
    let d = if inside { 0.0 } else { border };
    let ctx = || format!("{a:?} / {b:?}: exact distance {d}, to the border {border} ({})", if inside { "inside" } else { "outside" });
    let near = |x: f32, y: f64| (x as f64 - y).abs() <= tol;
    // squares: compare the root, where rounding is well behaved
    let nsq = |x: f32, y: f64| x >= -1e-6 && ((x.max(0.0) as f64).sqrt() - y).abs() <= 3.0 * tol;
    ensure!(near(a.distance(b), d), "distance {} {}", a.distance(b), ctx());
    ensure!(nsq(a.sq_distance(b), d), "sq_distance {} {}", a.sq_distance(b), ctx());
    let (p, x) = a.distance_from_border(b);
    let (q, y) = a.sq_distance_from_border(b);
    ensure!(near(x, border), "distance_from_border {x} {}", ctx());
    ensure!(nsq(y, border), "sq_distance_from_border {y} {}", ctx());
    if border > tol * 4.0 {
        let e = if inside { G::Interior } else { G::Exterior };
        ensure!(p == e && q == e, "reported {p:?}/{q:?} {}", ctx());
    }
    Ok(())
}
fn coord(r: &mut Rng, s: f64) -> f64 { if r.chance(0.5) { (r.range(-s, s)).round() } else { r.range(-s, s) as f32 as f64 } }
fn p2(r: &mut Rng, s: f64) -> P { (coord(r, s), coord(r, s)) }

fn main() {
    main_with("C13", vec![
        group("point-point", "distance and squared distance between points", (100000, 1000000), |_, r| {
            let s = *r.pick(&[1.0, 40.0, 900.0]);
            let (a, b) = (p2(r, s), p2(r, s));
            let (d, q) = (pt(a).distance(pt(b)) as f64, pt(a).sq_distance(pt(b)) as f64);
            ensure!((d - dist(a, b)).abs() <= 1e-4 * s && (q.sqrt() - dist(a, b)).abs() <= 1e-4 * s, "{a:?} {b:?}: {d} {q}, exact {}", dist(a, b));
            Ok("ok")
        }),
        group("edge-point", "distance from a point to a segment, and the closest point on it", (200000, 2000000), |_, r| {
            let s = *r.pick(&[1.0, 40.0, 900.0]);
            let (a, b) = (p2(r, s), p2(r, s));
            let p = match r.us(4) { 0 => { let t = r.range(-0.5, 1.5); ((a.0 + t * (b.0 - a.0)) as f32 as f64, (a.1 + t * (b.1 - a.1)) as f32 as f64) } _ => p2(r, 1.5 * s) };
            if dist(a, b) < 1e-3 * s { return Ok("degenerate"); }
            let e = Edge::new(pt(a), pt(b));
            let d = pt_seg(p, a, b);
            four(&e, &pt(p), false, d, s)?;
            let c = fp(e.closest_point_on_edge(&pt(p)));
            ensure!(pt_seg(c, a, b) <= 4e-4 * s && (dist(c, p) - d).abs() <= 4e-4 * s, "closest point {c:?} on {a:?}-{b:?} to {p:?}: at {} (exact distance {d})", dist(c, p));
            Ok("ok")
        }),
        group("rectangle-point", "distance from a point to a rectangle and to its border, inside and outside", (200000, 2000000), |_, r| {
            let s = *r.pick(&[1.0, 40.0, 900.0]);
            let (a, b) = (p2(r, s), p2(r, s));
            let q = (a.0.min(b.0), a.1.min(b.1), a.0.max(b.0), a.1.max(b.1));
            if q.2 - q.0 < 1e-3 * s || q.3 - q.1 < 1e-3 * s { return Ok("degenerate"); }
            let p = p2(r, 1.3 * s);
            let inside = p.0 >= q.0 && p.0 <= q.2 && p.1 >= q.1 && p.1 <= q.3;
            four(&rect(q), &pt(p), inside, border_dist(&rect_poly(q), p), s)?;
            Ok(if inside { "inside" } else { "outside" })
        }),
        group("circle", "distances from points, circles and segments to a circle and to its border", (200000, 2000000), |_, r| {
            let s = *r.pick(&[1.0, 40.0, 900.0]);
            let (c, p, q) = (p2(r, s), p2(r, s), p2(r, s));
            let (r1, r2) = ((r.f() * s) as f32 as f64, (r.f() * s * 0.5) as f32 as f64);
            let k = Circle::new(pt(c), r1 as f32);
            let d = dist(c, p);
            four(&k, &pt(p), d <= r1, (d - r1).abs(), s)?;
            four(&k, &Circle::new(pt(p), r2 as f32), d < r1 + r2, (d - r1 - r2).abs(), s)?;
            if dist(p, q) > 1e-3 * s { let e = pt_seg(c, p, q); four(&k, &Edge::new(pt(p), pt(q)), e < r1, (e - r1).abs(), s)?; }
            Ok(if d <= r1 { "inside" } else { "outside" })
        }),
        group("polygon-point", "distance from a point to a polygon and to its border, inside and outside", (60000, 1000000), |_, r| {
            let p = if r.chance(0.5) { let n = r.int(3, 30); int_poly(r, n) } else { real_poly(r, 25.0) };
            let s = sp(&p);
            let b = bbox(&p);
            let mut k = "outside";
            for _ in 0..8 {
                let q = (r.range(b.0 - 4.0, b.2 + 4.0) as f32 as f64, r.range(b.1 - 4.0, b.3 + 4.0) as f32 as f64);
                let bd = border_dist(&p, q);
                // which side is settled only up to the library's float tolerance
                if bd < 1e-3 + 1e-3 * q.0.abs().max(q.1.abs()) { continue; }
                let inside = pip(&p, q) == Loc::In;
                if inside { k = "inside" }
                four(&s, &pt(q), inside, bd, 30.0)?;
            }
            Ok(k)
        }),
    ]);
}
