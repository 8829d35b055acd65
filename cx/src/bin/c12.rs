use cx::*;
use jagua_rs::geometry::geo_traits::{AlmostCollidesWith, CollidesWith};
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;

/// closed segment meets closed rectangle
fn seg_rect(a: P, b: P, r: (f64, f64, f64, f64)) -> bool {
    let inr = |p: P| p.0 >= r.0 && p.0 <= r.2 && p.1 >= r.1 && p.1 <= r.3;
    inr(a) || inr(b) || edges(&rect_poly(r)).any(|(c, d)| seg_touch(a, b, c, d))
}
fn check_edges(a: P, b: P, c: P, d: P, tol: f64) -> Result<&'static str, String> {
    let (e, f) = (Edge::new(pt(a), pt(b)), Edge::new(pt(c), pt(d)));
    let exp = seg_touch(a, b, c, d) && !parallel(a, b, c, d);
    for (x, y, n) in [(&e, &f, "as given"), (&f, &e, "swapped")] {
        ensure!(x.collides_with(y) == exp, "{x:?} and {y:?}: collides_with = {}, exact {exp} ({n})", !exp);
        match x.collides_at(y) {
            None => ensure!(!exp, "{x:?} and {y:?} meet but collides_at found no location"),
            Some(p) => {
                ensure!(exp, "{x:?} and {y:?} do not meet but collides_at = {p:?}");
                let q = fp(p);
                ensure!(pt_seg(q, a, b) <= tol && pt_seg(q, c, d) <= tol, "{x:?} and {y:?}: collides_at = {p:?} is not on both");
            }
        }
    }
    Ok(if exp { "meet" } else if parallel(a, b, c, d) { "parallel" } else { "apart" })
}
fn grid_pt(k: u64, n: u64) -> P { ((k % n) as f64, (k / n % n) as f64) }

fn main() {
    main_with("C12", vec![
        exhaustive("edge-edge-grid", "two segments on an integer grid collide exactly when they are not parallel and share a point, and the reported location is on both (all pairs on a 4x4 grid; thorough: 5x5)", (65536, 390625), |i, _| {
            let n = if i < 65536 { 4 } else { 5 };
            let m = n * n;
            let (a, b, c, d) = (grid_pt(i % m, n), grid_pt(i / m % m, n), grid_pt(i / m / m % m, n), grid_pt(i / m / m / m % m, n));
            if a == b || c == d { return Ok("degenerate"); }
            check_edges(a, b, c, d, 1e-4)
        }),
        group("edge-edge", "the same for larger and non-integer coordinates away from grazing contact", (200000, 4000000), |_, r| {
            let int = r.chance(0.5);
            let s = if int { 60.0 } else { *r.pick(&[0.01, 1.0, 50.0, 3000.0]) };
            let off = if r.chance(0.3) { (r.range(-20.0, 20.0) * s, r.range(-20.0, 20.0) * s) } else { (0.0, 0.0) };
            let mut g = |r: &mut Rng| if int { (r.int(-60, 60) as f64, r.int(-60, 60) as f64) } else { ((off.0 + r.range(-s, s)) as f32 as f64, (off.1 + r.range(-s, s)) as f32 as f64) };
            let (a, b, c, d) = (g(r), g(r), g(r), g(r));
            if a == b || c == d { return Ok("degenerate"); }
            if !int {
                // an exact answer is only promised when rounding cannot matter
                let m = [a, b].iter().map(|p| (cross(c, d, *p) / dist(c, d)).abs()).chain([c, d].iter().map(|p| (cross(a, b, *p) / dist(a, b)).abs())).fold(f64::MAX, f64::min);
                let sin = ((b.0 - a.0) * (d.1 - c.1) - (b.1 - a.1) * (d.0 - c.0)).abs() / (dist(a, b) * dist(c, d));
                if m < 1e-3 * s || sin < 1e-2 { return Ok("grazing"); }
            }
            check_edges(a, b, c, d, 1e-3 * s + 1e-5 * (off.0.abs() + off.1.abs()))
        }),
        group("rect-edge", "a segment collides with a rectangle exactly when the closed sets share a point", (200000, 4000000), |i, r| {
            let n = if i % 2 == 0 { 6 } else { 40 };
            let (x, y) = (r.int(-n, n), r.int(-n, n));
            let q = (x as f64, y as f64, (x + r.int(1, n)) as f64, (y + r.int(1, n)) as f64);
            let a = (r.int(-2 * n, 2 * n) as f64, r.int(-2 * n, 2 * n) as f64); let b = (r.int(-2 * n, 2 * n) as f64, r.int(-2 * n, 2 * n) as f64);
            if a == b { return Ok("degenerate"); }
            let (re, e) = (rect(q), Edge::new(pt(a), pt(b)));
            let exp = seg_rect(a, b, q);
            ensure!(re.collides_with(&e) == exp, "{re:?} and {e:?}: {}, exact {exp}", !exp);
            ensure!(e.collides_with(&re) == exp, "{e:?} and {re:?}: {}, exact {exp} (swapped)", !exp);
            Ok(if exp { "meet" } else { "apart" })
        }),
        group("rect-rect-point", "rectangles and points: closed sets share a point; the almost-variants never miss a true contact and never report a clear gap", (200000, 2000000), |_, r| {
            let int = r.chance(0.6);
            let mut c = |r: &mut Rng| if int { r.int(-5, 5) as f32 } else { r.range(-1e3, 1e3) as f32 };
            let mut mk = |r: &mut Rng| loop { let (a, b, x, y) = (c(r), c(r), c(r), c(r)); if a != b && x != y { break (a.min(b) as f64, x.min(y) as f64, a.max(b) as f64, x.max(y) as f64); } };
            let (a, b) = (mk(r), mk(r));
            let p = (c(r) as f64, c(r) as f64);
            let exp = a.0.max(b.0) <= a.2.min(b.2) && a.1.max(b.1) <= a.3.min(b.3);
            let (ra, rb_) = (rect(a), rect(b));
            ensure!(ra.collides_with(&rb_) == exp && rb_.collides_with(&ra) == exp, "{ra:?} {rb_:?}: exact {exp}");
            let gap = (a.0.max(b.0) - a.2.min(b.2)).max(a.1.max(b.1) - a.3.min(b.3));
            let m = ra.almost_collides_with(&rb_);
            ensure!(m || !exp, "{ra:?} {rb_:?}: almost-variant missed a contact");
            ensure!(!m || gap <= 1e-2 + 2e-3 * [a.0, a.1, a.2, a.3].iter().fold(0.0f64, |m, v| m.max(v.abs())), "{ra:?} {rb_:?}: almost-variant reports contact over a gap of {gap}");
            let ip = p.0 >= a.0 && p.0 <= a.2 && p.1 >= a.1 && p.1 <= a.3;
            ensure!(ra.collides_with(&pt(p)) == ip && pt(p).collides_with(&ra) == ip, "{ra:?} {p:?}: exact {ip}");
            let am = ra.almost_collides_with(&pt(p));
            ensure!(am || !ip, "{ra:?} {p:?}: almost-variant missed a contact");
            let pg = (a.0 - p.0).max(p.0 - a.2).max(a.1 - p.1).max(p.1 - a.3);
            ensure!(!am || pg <= 1e-2 + 2e-3 * p.0.abs().max(p.1.abs()), "{ra:?} {p:?}: almost-variant reports contact over a gap of {pg}");
            Ok(if exp || ip { "contact" } else { "apart" })
        }),
        group("circles", "circle against circle, rectangle, point and segment: closed sets share a point", (200000, 2000000), |_, r| {
            let n = 12;
            let mut ip = |r: &mut Rng| (r.int(-n, n) as f64, r.int(-n, n) as f64);
            let (c1, c2, p) = (ip(r), ip(r), ip(r));
            let (r1, r2) = (r.int(0, 10) as f64, r.int(0, 10) as f64);
            let (a, b) = (Circle::new(pt(c1), r1 as f32), Circle::new(pt(c2), r2 as f32));
            let sq = |p: P, q: P| (p.0 - q.0).powi(2) + (p.1 - q.1).powi(2);
            let e = sq(c1, c2) <= (r1 + r2).powi(2);
            ensure!(a.collides_with(&b) == e && b.collides_with(&a) == e, "{a:?} {b:?}: exact {e}");
            let e2 = sq(c1, p) <= r1 * r1;
            ensure!(a.collides_with(&pt(p)) == e2 && pt(p).collides_with(&a) == e2, "{a:?} {p:?}: exact {e2}");
            let q = (p.0, p.1, p.0 + r.int(1, 9) as f64, p.1 + r.int(1, 9) as f64);
            let near = (c1.0.clamp(q.0, q.2), c1.1.clamp(q.1, q.3));
            let e3 = sq(near, c1) <= r1 * r1;
            ensure!(a.collides_with(&rect(q)) == e3, "{a:?} {q:?}: exact {e3}");
            if c2 != p {
                let d = pt_seg(c1, c2, p);
                let e4 = d <= r1;
                if (d - r1).abs() > 1e-4 { ensure!(a.collides_with(&Edge::new(pt(c2), pt(p))) == e4, "{a:?} segment {c2:?}-{p:?}: distance {d}, exact {e4}"); }
            }
            Ok(if e || e3 { "contact" } else { "apart" })
        }),
        group("polygon-point", "a point not on the border collides with a polygon exactly when it is in its interior", (100000, 2000000), |_, r| {
            let sz = r.int(3, 30);
            let mut p = int_poly(r, sz);
            let off = if r.chance(0.3) { (r.int(-500, 500) as f64, r.int(-500, 500) as f64) } else { (0.0, 0.0) };
            p = shift(&p, off);
            let s = sp(&p);
            let b = bbox(&p);
            let mut inside = 0;
            for _ in 0..20 {
                let q = match r.us(4) {
                    // heights of vertices exercise the ray-through-vertex handling
                    0 => { let v = *r.pick(&p); (r.int(b.0 as i64 - 1, b.2 as i64 + 1) as f64 + 0.5 * r.int(0, 1) as f64, v.1) }
                    1 => (r.int(b.0 as i64 - 2, b.2 as i64 + 2) as f64, r.int(b.1 as i64 - 2, b.3 as i64 + 2) as f64),
                    2 => (r.int(b.0 as i64 * 2 - 2, b.2 as i64 * 2 + 2) as f64 / 2.0, r.int(b.1 as i64 * 2 - 2, b.3 as i64 * 2 + 2) as f64 / 2.0),
                    _ => (r.range(b.0 - 1.0, b.2 + 1.0) as f32 as f64, r.range(b.1 - 1.0, b.3 + 1.0) as f32 as f64),
                };
                let m = 1e-3 + 2e-3 * q.0.abs().max(q.1.abs());
                let l = pip(&p, q);
                if l == Loc::On || border_dist(&p, q) < m.min(0.45) { continue; }
                if border_dist(&p, q) < m { continue; }
                ensure!(s.collides_with(&pt(q)) == (l == Loc::In) && pt(q).collides_with(&s) == (l == Loc::In), "point {q:?} is {l:?} of {p:?}");
                if l == Loc::In { inside += 1; }
            }
            Ok(if inside > 0 { "some-inside" } else { "all-outside" })
        }),
    ]);
}
