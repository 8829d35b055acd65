use cx::*;
use jagua_rs::collision_detection::hazard::HazardEntity as HE;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::{Transformable, TransformableFrom};
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;

/// shapes an item can have: any position (surrogates are built before centring), simple, fat enough
fn shape(r: &mut Rng) -> (Vec<P>, SimplePolygon) {
    let p = if r.chance(0.6) { let s = r.int(3, 40); int_poly(r, s) } else { let s = r.range(2.0, 60.0); real_poly(r, s) };
    let t = match r.us(3) { 0 => (0.0, 0.0), 1 => { let c = centroid(&p); (-c.0, -c.1) } _ => (r.int(-60, 60) as f64, r.int(-60, 60) as f64) };
    let p: Vec<P> = shift(&p, t).iter().map(|q| fp(pt(*q))).collect();
    let s = sp(&p);
    (p, s)
}
fn rand_surr(r: &mut Rng) -> jagua_rs::util::config::SPSurrogateConfig {
    let np = 1 + r.us(6);
    let piers = if r.chance(0.5) { r.us(3) } else { 0 };
    surr(np, r.us(np + 2), piers)
}
fn tf(r: &mut Rng) -> DTransformation { DTransformation::new(if r.chance(0.3) { 0.0 } else { r.range(-7.0, 7.0) as f32 }, (r.range(-10.0, 110.0) as f32, r.range(-10.0, 110.0) as f32)) }
fn close(a: P, b: P, tol: f64) -> bool { dist(a, b) <= tol }

fn main() {
    main_with("C03", vec![
        group("poles-inside", "every pole is a disc inside the shape, poles do not overlap, the first one is the shape's pole of inaccessibility up to the search resolution, and all lie in the bounding circle", (2500, 40000), |_, r| {
            let (p, mut s) = shape(r);
            let c = rand_surr(r);
            let c = jagua_rs::util::config::SPSurrogateConfig { n_ff_piers: 0, ..c };
            s.generate_surrogate(c);
            let sg = s.surrogate();
            let d = diameter(&p);
            let scale = d + p.iter().map(|q| q.0.abs().max(q.1.abs())).fold(0.0, f64::max);
            let tol = 1e-5 * scale;
            ensure!(!sg.poles.is_empty() && sg.poles.len() <= c.max_poles.max(1), "{} poles with max_poles {}", sg.poles.len(), c.max_poles);
            ensure!(sg.ff_poles().len() == c.n_ff_poles.min(sg.poles.len()), "{} fail-fast poles, configured {} of {}", sg.ff_poles().len(), c.n_ff_poles, sg.poles.len());
            ensure!(sg.poles[0] == s.poi, "first pole is not the shape's pole of inaccessibility");
            for (i, a) in sg.poles.iter().enumerate() {
                let ca = fp(a.center);
                ensure!(a.radius > 0.0 && pip(&p, ca) != Loc::Out && border_dist(&p, ca) >= a.radius as f64 - tol,
                    "pole {a:?} is not inside the shape {p:?} (distance to border {})", border_dist(&p, ca));
                for b in &sg.poles[i + 1..] {
                    ensure!(dist(ca, fp(b.center)) >= (a.radius + b.radius) as f64 - tol, "poles {a:?} and {b:?} overlap in {p:?}");
                }
                let bc = &sg.poles_bounding_circle;
                ensure!(dist(ca, fp(bc.center)) + a.radius as f64 <= bc.radius as f64 * 1.0001 + tol, "pole {a:?} outside the bounding circle {bc:?} of {:?}", sg.poles);
            }
            let best = inradius_lb(&p);
            ensure!(s.poi.radius as f64 >= best - 0.003 * d - tol, "pole of inaccessibility has radius {} but a disc of radius {best} fits in {p:?}", s.poi.radius);
            // hull area
            let ha = area(&hull(&p)).abs();
            ensure!((sg.convex_hull_area as f64 - ha).abs() <= 1e-4 * ha + 1e-4 * scale, "convex hull area {} but exact {ha} for {p:?}", sg.convex_hull_area);
            Ok(if sg.poles.len() > 1 { "multi" } else { "single" })
        }),
        group("piers-inside", "every pier is a segment inside the shape, and generation does not fail wherever the shape lies", (800, 12000), |_, r| {
            let (p, mut s) = shape(r);
            let np = 1 + r.us(2);
            s.generate_surrogate(surr(1, 1, np));
            let sg = s.surrogate();
            ensure!(sg.ff_piers().len() == np, "{} piers instead of {np}", sg.ff_piers().len());
            let scale = diameter(&p) + p.iter().map(|q| q.0.abs().max(q.1.abs())).fold(0.0, f64::max);
            let tol = 2e-5 * scale;
            for e in sg.ff_piers() {
                let (a, b) = (fp(e.start), fp(e.end));
                for k in 0..=16 {
                    let t = k as f64 / 16.0;
                    let q = (a.0 + t * (b.0 - a.0), a.1 + t * (b.1 - a.1));
                    ensure!(pip(&p, q) != Loc::Out || border_dist(&p, q) <= tol, "pier {e:?} leaves the shape {p:?} at {q:?} (by {})", border_dist(&p, q));
                }
            }
            Ok("ok")
        }),
        group("moves-with-shape", "transforming a shape transforms its whole surrogate with the same rigid motion (transform, transform_clone and transform_from)", (1500, 20000), |_, r| {
            let (p, mut s) = shape(r);
            let c = rand_surr(r); let c = jagua_rs::util::config::SPSurrogateConfig { n_ff_piers: if p.len() % 2 == 0 { 1 } else { 0 }, ..c };
            s.generate_surrogate(c);
            let d = tf(r); let t: Transformation = d.compose();
            let mv = |q: P| rt(q, d.rotation() as f64, (d.translation().0 as f64, d.translation().1 as f64));
            let mut buf = s.transform_clone(&tf(r).compose());
            buf.transform_from(&s, &t);
            let tol = 1e-4 * (200.0 + diameter(&p));
            for (how, m) in [("transform_clone", s.transform_clone(&t)), ("transform_from", buf)] {
                let (a, b) = (s.surrogate(), m.surrogate());
                ensure!(m.points.len() == s.points.len() && m.points.iter().zip(&s.points).all(|(x, y)| close(fp(*x), mv(fp(*y)), tol)), "{how}: points not moved rigidly");
                ensure!(a.poles.len() == b.poles.len() && a.piers.len() == b.piers.len() && a.ff_poles().len() == b.ff_poles().len() && a.convex_hull_indices == b.convex_hull_indices, "{how}: surrogate structure changed");
                for (x, y) in a.poles.iter().chain([&a.poles_bounding_circle, &s.poi]).zip(b.poles.iter().chain([&b.poles_bounding_circle, &m.poi])) {
                    ensure!(x.radius == y.radius && close(mv(fp(x.center)), fp(y.center), tol), "{how}: {x:?} became {y:?} under {d:?}");
                }
                for (x, y) in a.piers.iter().zip(&b.piers) {
                    ensure!(close(mv(fp(x.start)), fp(y.start), tol) && close(mv(fp(x.end)), fp(y.end), tol), "{how}: pier {x:?} became {y:?} under {d:?}");
                }
            }
            Ok("ok")
        }),
        group("conservative", "a surrogate collision implies that the transformed shape meets a relevant hazard; surrogate_or_poly_collides equals poly_collides of the transformed shape; collected surrogate collisions are real", (2500, 40000), |_, r| {
            let depth = r.us(6) as u8;
            let bs = r.range(60.0, 100.0) as f32 as f64;
            let outer = if r.chance(0.5) { rect_poly((0.0, 0.0, 100.0, bs)) } else { loop { let p = real_poly(r, 100.0); if area(&p).abs() > 3000.0 { break p } } };
            let bw = bin_w(0, outer, vec![], vec![], cfg(depth, 0));
            let mut l = jagua_rs::entities::layout::Layout::new(0, bw.bin.clone());
            let its: Vec<_> = (0..3).map(|i| { let sz = r.range(8.0, 40.0); let p = real_poly(r, sz); let c = centroid(&p); let p = shift(&p, (-c.0, -c.1)); let np = if r.chance(0.3) { 1 } else { 0 }; item(i, &p, None, surr(4, 1 + i, np)) }).collect();
            let mut hz = bw.statics.clone();
            for _ in 0..1 + r.us(4) { let d = tf(r); let k = l.place_item(&its[r.us(3)], d); let pi = &l.placed_items()[k]; hz.push((HE::from(pi), pts(&pi.shape))); }
            let cb = rb(l.cde().bbox());
            let mut class = "no-surrogate-hit";
            for _ in 0..20 {
                let it = &its[r.us(3)];
                let t: Transformation = tf(r).compose();
                let m = it.shape.transform_clone(&t);
                let q = pts(&m);
                let irr = irr_subset(r, &hz);
                let sh = l.cde().surrogate_collides(it.shape.surrogate(), &t, &irr);
                let real: Vec<(HE, bool, f64)> = hz.iter().filter(|h| !irr.contains(&h.0)).map(|(e, s)| (*e, haz_hits_poly(e, s, &q), borders_dist(s, &q))).collect();
                let ctx = || format!("\nshape {q:?}\nirrelevant {irr:?}\nhazards {hz:?}\nsurrogate {:?}", m.surrogate());
                if sh {
                    class = "surrogate-hit";
                    ensure!(real.iter().any(|(_, h, d)| *h || *d < 1e-2), "surrogate collides but the shape meets no relevant hazard{}", ctx());
                }
                let mut col = vec![];
                l.cde().collect_surrogate_collisions(it.shape.surrogate(), &t, &irr, &mut col);
                for e in &col { ensure!(real.iter().any(|(x, h, d)| x == e && (*h || *d < 1e-2)), "collected surrogate collision {e:?} is not a collision of the shape{}", ctx()); }
                ensure!(sh == !col.is_empty(), "surrogate_collides {sh} but collected {col:?}{}", ctx());
                let mut buf = it.shape.as_ref().clone();
                let b = l.cde().surrogate_or_poly_collides(&it.shape, &t, &mut buf, &irr);
                let pc = l.cde().poly_collides(&m, &irr);
                let marginal = real.iter().any(|(_, _, d)| *d < 1e-2) || { let qb = bbox(&q); (qb.0 - cb.0).abs().min((qb.1 - cb.1).abs()).min((qb.2 - cb.2).abs()).min((qb.3 - cb.3).abs()) < 1e-2 };
                ensure!(b == pc || marginal, "surrogate_or_poly_collides {b}, poly_collides {pc}{}", ctx());
            }
            Ok(class)
        }),
    ]);
}
