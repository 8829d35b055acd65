use cx::*;
use jagua_rs::geometry::geo_traits::{Shape, Transformable};
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;

fn poly(r: &mut Rng) -> Vec<P> {
    let mut p = if r.chance(0.5) { let n = r.int(2, 40); int_poly(r, n) } else { let s = *r.pick(&[1.0, 20.0, 300.0]); real_poly(r, s) };
    if r.chance(0.4) { let d = diameter(&p); let t = (r.int(-10, 10) as f64 * d.round(), r.int(-10, 10) as f64 * d.round()); p = p.iter().map(|q| ((q.0 + t.0) as f32 as f64, (q.1 + t.1) as f32 as f64)).collect(); }
    p
}
fn panics(f: impl FnOnce() + std::panic::UnwindSafe) -> bool { std::panic::catch_unwind(f).is_err() }

fn main() {
    main_with("C16", vec![
        group("construction", "a constructed polygon has the given vertices in counter-clockwise cyclic order, the exact area, diameter and tight bounding box, whichever orientation and starting vertex was given", (20000, 300000), |_, r| {
            let p = poly(r);
            let s = sp(&p);
            let g = pts(&s);
            let n = p.len();
            ensure!(s.number_of_points() == n && g.len() == n, "{} vertices instead of {n}", g.len());
            ensure!(area2(&g) > 0.0, "not counter-clockwise: {g:?}");
            let fwd = area2(&p) > 0.0;
            ensure!((0..n).any(|k| (0..n).all(|i| g[(i + k) % n] == if fwd { p[i] } else { p[n - 1 - i] })), "vertices {g:?} are not those of {p:?}");
            let m = p.iter().fold(0.0f64, |m, q| m.max(q.0.abs()).max(q.1.abs()));
            let d = diameter(&p);
            let tol = 1e-6 * n as f64 * (m + d);
            ensure!((s.area() as f64 - area(&p).abs()).abs() <= 4.0 * tol * (m + d), "area {} instead of {} for {p:?}", s.area(), area(&p).abs());
            ensure!((s.diameter() as f64 - d).abs() <= tol, "diameter {} instead of {d} for {p:?}", s.diameter());
            ensure!(rb(&s.bbox()) == bbox(&p), "bounding box {:?} of {p:?}", s.bbox());
            for i in 0..n {
                let e = s.get_edge(i);
                ensure!(fp(e.start) == g[i] && fp(e.end) == g[(i + 1) % n] && fp(s.get_point(i)) == g[i], "edge {i} of {g:?} is {e:?}");
            }
            let es: Vec<_> = s.edge_iter().map(|e| (fp(e.start), fp(e.end))).collect();
            ensure!(es == edges(&g).collect::<Vec<_>>(), "edges {es:?} of {g:?}");
            Ok(if fwd { "ccw" } else { "cw" })
        }),
        group("area-formula", "the signed area of any vertex list is positive exactly for counter-clockwise order and exact for integer vertices", (50000, 500000), |_, r| {
            let n = 3 + r.us(9);
            let v: Vec<P> = (0..n).map(|_| (r.int(-30, 30) as f64, r.int(-30, 30) as f64)).collect();
            let f: Vec<Point> = v.iter().map(|p| pt(*p)).collect();
            let a = SimplePolygon::calculate_area(&f) as f64;
            ensure!(a == area(&v), "area of {v:?} = {a}, exact {}", area(&v));
            let b = SimplePolygon::generate_bounding_box(&{ let mut f = f.clone(); f.push(Point(-31.0, 31.0)); f.push(Point(31.0, -31.0)); f });
            ensure!(rb(&b) == (-31.0, -31.0, 31.0, 31.0), "bounding box {b:?}");
            Ok("ok")
        }),
        group("diameter", "the diameter of any point set is the largest distance between two of its points", (30000, 300000), |_, r| {
            let n = 3 + r.us(10); let lim = if r.chance(0.5) { 4 } else { 50 };
            let v: Vec<P> = (0..n).map(|_| (r.int(0, lim) as f64, r.int(0, lim) as f64)).collect();
            if hull(&v).len() < 3 { return Ok("flat"); }
            let d = SimplePolygon::calculate_diameter(v.iter().map(|p| pt(*p)).collect()) as f64;
            ensure!((d - diameter(&v)).abs() <= 1e-4, "diameter of {v:?} = {d}, exact {}", diameter(&v));
            Ok("ok")
        }),
        group("centroid", "the centroid is the centre of mass, and centring moves the shape rigidly so that it lies at the origin", (10000, 150000), |_, r| {
            let p = poly(r);
            let s = sp(&p);
            let m = p.iter().fold(0.0f64, |m, q| m.max(q.0.abs()).max(q.1.abs()));
            let d = diameter(&p);
            // the library's formula loses digits for shapes far away from the origin
            let tol = 1e-3 * d + 2e-6 * (m + d) * (m + d) * (m + d) / area(&p).abs();
            let c = fp(s.centroid());
            ensure!(dist(c, centroid(&p)) <= tol, "centroid {c:?} instead of {:?} for {p:?}", centroid(&p));
            let (q, t) = s.clone().center_around_centroid();
            let mv = s.transform_clone(&t);
            ensure!(pts(&q) == pts(&mv), "the returned transformation does not describe the move");
            ensure!(pts(&q).iter().zip(pts(&s)).all(|(a, b)| dist(*a, sub(b, c)) <= 1e-5 * (m + d)), "not a translation by the centroid");
            ensure!(dist(centroid(&pts(&q)), (0.0, 0.0)) <= tol + 1e-5 * (m + d), "centred shape has centroid {:?}", centroid(&pts(&q)));
            ensure!(q.area == s.area && q.number_of_points() == s.number_of_points(), "shape changed");
            Ok("ok")
        }),
        group("rejects", "fewer than three vertices, repeated vertices and zero area are rejected", (2000, 20000), |_, r| {
            let n = r.int(3, 20); let p = int_poly(r, n);
            let mk = |v: &[P]| v.iter().map(|q| pt(*q)).collect::<Vec<Point>>();
            let two = mk(&p[..2]);
            ensure!(panics(move || { SimplePolygon::new(two); }), "two points accepted");
            let mut d = p.clone(); let (i, j) = (r.us(p.len()), r.us(p.len() + 1)); d.insert(j, p[i]);
            let dd = mk(&d);
            ensure!(panics(move || { SimplePolygon::new(dd); }), "repeated vertex accepted: {d:?}");
            let k = 3 + r.us(4); let (dx, dy) = (r.int(-3, 3) as f64, r.int(-3, 3) as f64);
            if dx == 0.0 && dy == 0.0 { return Ok("ok"); }
            let l: Vec<P> = (0..k).map(|i| (i as f64 * dx, i as f64 * dy)).collect();
            let ll = mk(&l);
            ensure!(panics(move || { SimplePolygon::new(ll); }), "flat polygon accepted: {l:?}");
            Ok("ok")
        }),
    ]);
}
