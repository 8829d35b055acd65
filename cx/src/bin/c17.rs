use cx::*;
use jagua_rs::geometry::convex_hull::*;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::point::Point;

/// h is the convex hull of v: convex, counter-clockwise, vertices from v, contains v
fn is_hull(h: &[P], v: &[P]) -> Result<(), String> {
    let n = h.len();
    let e = hull(v);
    ensure!(h.iter().all(|p| v.contains(p)), "hull {h:?} has vertices not in {v:?}");
    ensure!(n == e.len(), "hull of {v:?} is {h:?}, exact {e:?}");
    let k = h.iter().position(|p| *p == e[0]).ok_or(format!("hull of {v:?} is {h:?}, exact {e:?}"))?;
    ensure!((0..n).all(|i| h[(i + k) % n] == e[i]), "hull of {v:?} is {h:?}, exact {e:?}");
    Ok(())
}
fn main() {
    main_with("C17", vec![
        group("hull-points", "the hull of any integer point set (repeats and collinear points included) is its convex hull in counter-clockwise order without superfluous vertices", (100000, 2000000), |_, r| {
            let n = 3 + r.us(14); let lim = *r.pick(&[2i64, 4, 9, 100]);
            let v: Vec<P> = (0..n).map(|_| (r.int(-lim, lim) as f64, r.int(-lim, lim) as f64)).collect();
            let e = hull(&v);
            if e.len() < 3 { return Ok("flat"); }
            let h: Vec<P> = convex_hull_from_points(v.iter().map(|p| pt(*p)).collect::<Vec<Point>>()).iter().map(|p| fp(*p)).collect();
            is_hull(&h, &v)?;
            Ok(if e.len() < v.len() { "some-inside" } else { "all-on-hull" })
        }),
        group("hull-real", "for non-integer points the hull contains every point and is convex up to rounding", (50000, 500000), |_, r| {
            let n = 3 + r.us(20); let s = *r.pick(&[1.0, 100.0]);
            let v: Vec<P> = (0..n).map(|_| (r.range(-s, s) as f32 as f64, r.range(-s, s) as f32 as f64)).collect();
            let h: Vec<P> = convex_hull_from_points(v.iter().map(|p| pt(*p)).collect::<Vec<Point>>()).iter().map(|p| fp(*p)).collect();
            ensure!(h.len() >= 3 && h.iter().all(|p| v.contains(p)), "hull {h:?} of {v:?}");
            for (a, b) in edges(&h) { for p in &v { ensure!(cross(a, b, *p) / dist(a, b) >= -1e-4 * s, "{p:?} lies outside hull edge {a:?}-{b:?}"); } }
            ensure!((area(&h) - area(&hull(&v))).abs() <= 1e-4 * s * s, "hull area {} instead of {}", area(&h), area(&hull(&v)));
            Ok("ok")
        }),
        group("hull-of-shapes", "hull indices of a polygon and the hull of several placed shapes are the hulls of their vertices, with or without surrogates", (6000, 60000), |_, r| {
            let k = 1 + r.us(4);
            let mut all = vec![]; let mut ss = vec![];
            for _ in 0..k {
                let sz = r.int(2, 20); let p = int_poly(r, sz); let t = (r.int(-20, 20) as f64, r.int(-20, 20) as f64);
                let mut s = sp(&shift(&p, t));
                if r.chance(0.5) { s.generate_surrogate(surr(2, 1, 0)); }
                let g = pts(&s);
                let idx = convex_hull_indices(&s);
                is_hull(&idx.iter().map(|i| g[*i]).collect::<Vec<_>>(), &g)?;
                all.extend(g); ss.push(s);
            }
            let h: Vec<P> = convex_hull_from_shapes(ss.iter()).iter().map(|p| fp(*p)).collect();
            is_hull(&h, &all)?;
            Ok("ok")
        }),
        group("bounding-circle", "the bounding circle of any circles contains all of them, and for at most two it is the smallest such circle", (200000, 2000000), |_, r| {
            let n = 1 + r.us(6); let s = *r.pick(&[1.0, 30.0, 400.0]);
            let mut v: Vec<Circle> = vec![];
            for _ in 0..n {
                let c = if !v.is_empty() && r.chance(0.2) { fp(r.pick(&v).center) } else { (r.range(-s, s).round(), r.range(-s, s).round()) };
                v.push(Circle::new(pt(c), (r.f() * s) as f32));
            }
            let b = Circle::bounding_circle(v.iter());
            for c in &v { let need = dist(fp(b.center), fp(c.center)) + c.radius as f64; ensure!(need <= b.radius as f64 + 1e-4 * s, "{c:?} sticks out of the bounding circle {b:?} of {v:?}"); }
            let opt = match n { 1 => v[0].radius as f64, 2 => { let d = dist(fp(v[0].center), fp(v[1].center)); let (a, c) = (v[0].radius as f64, v[1].radius as f64); a.max(c).max((d + a + c) / 2.0) } _ => f64::MAX };
            ensure!(b.radius as f64 <= opt + 1e-4 * s, "bounding circle {b:?} of {v:?} is larger than needed ({opt})");
            ensure!(b.radius as f64 <= 10.0 * s, "bounding circle {b:?} is unreasonably large");
            Ok("ok")
        }),
    ]);
}
