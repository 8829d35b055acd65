use cx::*;
use jagua_rs::geometry::d_transformation::DTransformation as D;
use jagua_rs::geometry::geo_traits::{Shape, Transformable, TransformableFrom};
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::transformation::Transformation as T;

type Op = (u8, f64, P);
/// the library's transformation and the sequence of elementary motions it stands for
fn build(r: &mut Rng, n: usize) -> (T, Vec<Op>) {
    let mut t = T::empty();
    let mut v = vec![];
    for _ in 0..n {
        let a = if r.chance(0.3) { *r.pick(&[0.0, std::f64::consts::FRAC_PI_2, std::f64::consts::PI, -std::f64::consts::FRAC_PI_2]) } else { r.range(-7.0, 7.0) } as f32 as f64;
        let d = (r.range(-40.0, 40.0) as f32 as f64, r.range(-40.0, 40.0) as f32 as f64);
        let td = (d.0 as f32, d.1 as f32);
        let k = r.us(8) as u8;
        t = match k {
            0 => t.rotate(a as f32), 1 => t.translate(td), 2 => t.rotate_translate(a as f32, td), 3 => t.translate_rotate(td, a as f32),
            4 => t.transform(&T::from_rotation(a as f32)), 5 => t.transform(&T::from_translation(td)),
            6 => t.transform_from_decomposed(&D::new(a as f32, td)), _ => t.transform(&T::from_dt(&D::new(a as f32, td))),
        };
        v.push((k, a, d));
    }
    (t, v)
}
fn apply(v: &[Op], mut p: P) -> P {
    for (k, a, d) in v {
        p = match k { 0 | 4 => rt(p, *a, (0.0, 0.0)), 1 | 5 => add(p, *d), 3 => rt(add(p, *d), *a, (0.0, 0.0)), _ => rt(p, *a, *d) };
    }
    p
}
fn q(r: &mut Rng) -> P { (r.range(-50.0, 50.0) as f32 as f64, r.range(-50.0, 50.0) as f32 as f64) }
const TOL: f64 = 3e-3;

fn main() {
    main_with("C15", vec![
        group("composition", "a transformation built by any chain of rotations, translations and compositions moves every point as the chain applied in order", (100000, 1000000), |_, r| {
            let n = r.us(6);
            let (t, v) = build(r, n);
            for _ in 0..4 {
                let p = q(r); let g = fp(pt(p).transform_clone(&t)); let e = apply(&v, p);
                ensure!(dist(g, e) <= TOL, "{p:?} moved to {g:?} instead of {e:?} by {v:?}");
            }
            ensure!(n > 0 || t.is_empty(), "the empty transformation is not recognised as empty");
            let g = |i: usize, j: usize| t.matrix()[i][j].into_inner() as f64;
            ensure!((g(0, 0) * g(1, 1) - g(0, 1) * g(1, 0) - 1.0).abs() < 1e-4 && g(2, 0) == 0.0 && g(2, 1) == 0.0 && g(2, 2) == 1.0, "not a proper rigid motion: {t:?}");
            if !t.is_empty() { let p = (1000.0, 731.0); let m = dist(fp(pt(p).transform_clone(&t)), p) ; ensure!(n > 0 || m < 1e-3, "empty moves"); }
            Ok("ok")
        }),
        group("inverse", "applying a transformation and then its inverse, in either order, brings every point back", (100000, 1000000), |_, r| {
            let n = 1 + r.us(5);
            let (t, v) = build(r, n);
            let i = t.clone().inverse();
            for _ in 0..3 {
                let p = q(r);
                let (a, b, c) = (fp(pt(p).transform_clone(&t).transform_clone(&i)), fp(pt(p).transform_clone(&i).transform_clone(&t)), fp(pt(p).transform_clone(&t.clone().transform(&i))));
                ensure!(dist(a, p) <= 2.0 * TOL && dist(b, p) <= 2.0 * TOL && dist(c, p) <= 2.0 * TOL, "{p:?} comes back as {a:?}, {b:?}, {c:?} under {v:?} and its inverse");
            }
            Ok("ok")
        }),
        group("decompose", "decomposing into rotation and translation and composing again gives the same motion, and the decomposition reads back what was put in", (100000, 1000000), |_, r| {
            let n = r.us(5);
            let (t, v) = build(r, n);
            let d = t.decompose(); let u = d.compose();
            let (d2, u2, u3) = (D::from(&t), T::from(&d), T::from_dt(&d));
            for _ in 0..3 {
                let p = q(r); let e = apply(&v, p);
                for (n, w) in [("compose", &u), ("from", &u2), ("from_dt", &u3)] { let g = fp(pt(p).transform_clone(w)); ensure!(dist(g, e) <= 2.0 * TOL, "{p:?} moved to {g:?} instead of {e:?} after decompose/{n} ({v:?}, {d:?})"); }
                let g = rt(p, d2.rotation() as f64, (d2.translation().0 as f64, d2.translation().1 as f64));
                ensure!(dist(g, e) <= 2.0 * TOL, "decomposed {d2:?} moves {p:?} to {g:?} instead of {e:?}");
            }
            let (a, x, y) = (r.range(-3.0, 3.0) as f32, r.range(-9.0, 9.0) as f32, r.range(-9.0, 9.0) as f32);
            let w = D::new(a, (x, y));
            ensure!(w.rotation() == a && w.translation() == (x, y), "{w:?} from {a} {x} {y}");
            let b = w.compose().decompose();
            ensure!((b.rotation() - a).abs() < 1e-4 && b.translation() == (x, y), "{w:?} decomposed as {b:?}");
            ensure!(D::empty().compose().is_empty() && T::empty().decompose() == D::empty(), "empty transformations");
            Ok("ok")
        }),
        group("primitives", "points, segments and circles are moved rigidly, in place, as a copy or from a reference alike", (50000, 500000), |_, r| {
            let n = 1 + r.us(4);
            let (t, v) = build(r, n);
            let (a, b, c) = (q(r), q(r), q(r)); let rad = r.range(0.1, 9.0) as f32;
            let near = |g: jagua_rs::geometry::primitives::point::Point, p: P, what: &str| -> Result<(), String> { let e = apply(&v, p); ensure!(dist(fp(g), e) <= TOL, "{what} of {p:?} is {g:?} instead of {e:?} ({v:?})"); Ok(()) };
            let mut x = pt(b); x.transform_from(&pt(a), &t); near(x, a, "transform_from")?;
            let mut x = pt(a); x.transform(&t); near(x, a, "transform")?;
            let e = Edge::new(pt(a), pt(b));
            let mut f = Edge::new(pt(c), pt(a)); f.transform_from(&e, &t);
            for (g, w) in [(e.transform_clone(&t), "transform_clone"), (f, "transform_from")] { near(g.start, a, w)?; near(g.end, b, w)?; }
            let k = Circle::new(pt(c), rad);
            let mut m = Circle::new(pt(a), rad); m.transform_from(&k, &t);
            for (g, w) in [(k.transform_clone(&t), "transform_clone"), (m, "transform_from")] { near(g.center, c, w)?; ensure!(g.radius == rad, "{w} changed the radius {rad} to {}", g.radius); }
            Ok("ok")
        }),
        group("polygons", "a moved polygon has exactly the moved vertices in the same order, the same area and diameter, the bounding box of its new vertices and the moved pole and surrogate, whichever way it is moved", (6000, 100000), |_, r| {
            let sz = r.int(4, 25);
            let p = int_poly(r, sz);
            let mut s = sp(&p);
            let with = r.chance(0.7);
            if with { s.generate_surrogate(surr(1 + r.us(4), 1 + r.us(2), r.us(3))); }
            let p = pts(&s);
            let n = 1 + r.us(3);
            let (t, v) = build(r, n);
            let n2 = 1 + r.us(2); let (t0, _) = build(r, n2);
            let mut inplace = s.clone(); inplace.transform(&t);
            let mut from = s.transform_clone(&t0); from.transform_from(&s, &t);
            for (g, w) in [(s.transform_clone(&t), "transform_clone"), (inplace, "transform"), (from, "transform_from")] {
                let gp = pts(&g);
                ensure!(gp.len() == p.len() && gp.iter().zip(&p).all(|(a, b)| dist(*a, apply(&v, *b)) <= TOL), "{w}: vertices {gp:?} of {p:?} under {v:?}");
                ensure!(g.area == s.area && g.diameter == s.diameter, "{w}: area or diameter changed");
                ensure!(rb(&g.bbox()) == bbox(&gp), "{w}: bounding box {:?} of {gp:?}", g.bbox);
                ensure!(dist(fp(g.poi.center), apply(&v, fp(s.poi.center))) <= TOL && g.poi.radius == s.poi.radius, "{w}: pole {:?}", g.poi);
                ensure!(g.surrogate.is_some() == with, "{w}: surrogate lost");
                if with {
                    let (a, b) = (s.surrogate(), g.surrogate());
                    ensure!(a.poles.len() == b.poles.len() && a.poles.iter().zip(&b.poles).all(|(x, y)| x.radius == y.radius && dist(apply(&v, fp(x.center)), fp(y.center)) <= TOL), "{w}: poles not moved");
                    ensure!(a.piers.len() == b.piers.len() && a.piers.iter().zip(&b.piers).all(|(x, y)| dist(apply(&v, fp(x.start)), fp(y.start)) <= TOL && dist(apply(&v, fp(x.end)), fp(y.end)) <= TOL), "{w}: piers not moved");
                    ensure!(dist(apply(&v, fp(a.poles_bounding_circle.center)), fp(b.poles_bounding_circle.center)) <= TOL && a.poles_bounding_circle.radius == b.poles_bounding_circle.radius, "{w}: bounding circle of the poles not moved");
                    ensure!(a.convex_hull_indices == b.convex_hull_indices && a.convex_hull_area == b.convex_hull_area, "{w}: hull changed");
                }
            }
            Ok(if with { "surrogate" } else { "plain" })
        }),
    ]);
}
