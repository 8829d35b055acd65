use cx::*;
use jagua_rs::geometry::geo_enums::GeoRelation as R;
use jagua_rs::geometry::geo_traits::{CollidesWith, Shape};
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;

type B = (f64, f64, f64, f64);
fn sub_of(a: B, b: B) -> bool { inside_bbox(a, b) }
fn mk(r: &mut Rng) -> B {
    let int = r.chance(0.7);
    let s = if int { 6.0 } else { *r.pick(&[1.0, 50.0, 2000.0]) };
    loop {
        let mut c = |r: &mut Rng| if int { r.int(-6, 6) as f64 } else { r.range(-s, s) as f32 as f64 };
        let (a, b, x, y) = (c(r), c(r), c(r), c(r));
        if (a - b).abs() > 1e-2 * s && (x - y).abs() > 1e-2 * s { return (a.min(b), x.min(y), a.max(b), x.max(y)); }
    }
}
fn name(r: &R) -> &'static str { match r { R::Intersecting => "intersecting", R::Enclosed => "enclosed", R::Surrounding => "surrounding", R::Disjoint => "disjoint" } }
fn close(a: B, b: B, t: f64) -> bool { (a.0 - b.0).abs() <= t && (a.1 - b.1).abs() <= t && (a.2 - b.2).abs() <= t && (a.3 - b.3).abs() <= t }

fn relation(a: B, b: B) -> Result<&'static str, String> {
    let (x, y) = (rect(a), rect(b));
    let touch = a.0.max(b.0) <= a.2.min(b.2) && a.1.max(b.1) <= a.3.min(b.3);
    let got = x.relation_to(&y);
    let ok = match got { R::Disjoint => !touch, R::Surrounding => touch && sub_of(b, a), R::Enclosed => touch && sub_of(a, b), R::Intersecting => touch && !sub_of(a, b) && !sub_of(b, a) };
    ensure!(ok, "{x:?} is {} {y:?}?", name(&got));
    // the tolerant variant: never denies a containment or contact that exists, never invents a clear one
    let al = x.almost_relation_to(&y);
    let t = 1e-2 + 2e-3 * [a.0, a.1, a.2, a.3].iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let grow = |b: B| (b.0 - t, b.1 - t, b.2 + t, b.3 + t);
    let gap = (a.0.max(b.0) - a.2.min(b.2)).max(a.1.max(b.1) - a.3.min(b.3));
    let ok = match al {
        R::Disjoint => !touch,
        R::Surrounding => sub_of(b, grow(a)),
        R::Enclosed => sub_of(a, grow(b)) && !sub_of(b, a),
        R::Intersecting => gap <= t && !sub_of(a, b) && !sub_of(b, a),
    };
    ensure!(ok, "{x:?} is almost {} {y:?}?", name(&al));
    Ok(name(&got))
}

fn main() {
    main_with("C14", vec![
        exhaustive("relation-grid", "the relation of two rectangles is the set relation of the closed sets (all pairs with corners on a 4x4 grid)", (36 * 36, 36 * 36), |i, _| {
            let all: Vec<B> = { let mut v = vec![]; for a in 0..4 { for b in a + 1..4 { for c in 0..4 { for d in c + 1..4 { v.push((a as f64, c as f64, b as f64, d as f64)); } } } } v };
            relation(all[i as usize % 36], all[i as usize / 36])
        }),
        group("relation", "the same for arbitrary rectangles", (200000, 2000000), |_, r| { let (a, b) = (mk(r), mk(r)); relation(a, b) }),
        group("square", "inflating to a square gives the square with the longer side, the same centre, containing the original", (100000, 1000000), |_, r| {
            let a = mk(r); let x = rect(a);
            let q = rb(&x.inflate_to_square());
            let s = (a.2 - a.0).max(a.3 - a.1); let t = 1e-6 * (s + a.0.abs() + a.1.abs() + a.2.abs() + a.3.abs());
            let c = ((a.0 + a.2) / 2.0, (a.1 + a.3) / 2.0);
            ensure!(close(q, (c.0 - s / 2.0, c.1 - s / 2.0, c.0 + s / 2.0, c.1 + s / 2.0), t), "{x:?} inflated to {q:?}");
            ensure!(sub_of(a, q), "{x:?} not inside its square {q:?}");
            Ok(if (a.2 - a.0) < (a.3 - a.1) { "tall" } else { "wide" })
        }),
        group("quadrants", "the quadrants tile the rectangle at its centre in Cartesian order, corners and edges follow the same order, and the neighbour table lists the two quadrants sharing a side", (100000, 1000000), |_, r| {
            let a = mk(r); let x = rect(a);
            let c = ((a.0 + a.2) / 2.0, (a.1 + a.3) / 2.0);
            let t = 1e-6 * (a.0.abs() + a.1.abs() + a.2.abs() + a.3.abs());
            let q: Vec<B> = x.quadrants().iter().map(rb).collect();
            let e = [(c.0, c.1, a.2, a.3), (a.0, c.1, c.0, a.3), (a.0, a.1, c.0, c.1), (c.0, a.1, a.2, c.1)];
            for i in 0..4 { ensure!(close(q[i], e[i], t), "quadrant {i} of {x:?} is {:?}, expected {:?}", q[i], e[i]); }
            // no gaps: shared sides coincide exactly and the outer sides are those of the rectangle
            ensure!(q[0].0 == q[1].2 && q[3].0 == q[2].2 && q[0].0 == q[3].0 && q[0].1 == q[3].3 && q[1].1 == q[2].3 && q[0].1 == q[1].1, "gap between quadrants of {x:?}: {q:?}");
            ensure!(q[0].2 == a.2 && q[0].3 == a.3 && q[2].0 == a.0 && q[2].1 == a.1, "quadrants {q:?} do not reach the sides of {x:?}");
            let co: Vec<P> = x.corners().iter().map(|p| fp(*p)).collect();
            ensure!(co == vec![(a.2, a.3), (a.0, a.3), (a.0, a.1), (a.2, a.1)], "corners {co:?} of {x:?}");
            for (i, ed) in x.edges().iter().enumerate() { ensure!(fp(ed.start) == co[i] && fp(ed.end) == co[(i + 1) % 4], "edge {i} of {x:?}: {ed:?}"); }
            for i in 0..4 { let mut n = AARectangle::QUADRANT_NEIGHBOR_LAYOUT[i].to_vec(); n.sort(); let mut m = vec![(i + 1) % 4, (i + 3) % 4]; m.sort(); ensure!(n == m, "neighbours of quadrant {i}: {n:?}"); }
            Ok("ok")
        }),
        group("measures", "width, height, area, diameter, centroid and bounding box are those of the set; scaling keeps the centre and multiplies the sides", (100000, 1000000), |_, r| {
            let a = mk(r); let x = rect(a);
            let (w, h) = (a.2 - a.0, a.3 - a.1);
            let m = 1e-5 * (1.0 + a.0.abs() + a.1.abs() + a.2.abs() + a.3.abs());
            ensure!((x.width() as f64 - w).abs() <= m && (x.height() as f64 - h).abs() <= m, "sides of {x:?}");
            ensure!((x.area() as f64 - w * h).abs() <= m * (w + h), "area of {x:?} = {}", x.area());
            ensure!((x.diameter() as f64 - (w * w + h * h).sqrt()).abs() <= m, "diameter of {x:?} = {}", x.diameter());
            let c = fp(x.centroid());
            ensure!(dist(c, ((a.0 + a.2) / 2.0, (a.1 + a.3) / 2.0)) <= m, "centroid of {x:?} = {c:?}");
            ensure!(x.collides_with(&pt(c)), "centroid outside");
            ensure!(rb(&x.bbox()) == a, "bbox of {x:?}");
            let f = *r.pick(&[0.5, 1.0, 1.1, 2.0, 3.0]);
            let s = rb(&x.clone().scale(f as f32));
            let cc = ((a.0 + a.2) / 2.0, (a.1 + a.3) / 2.0);
            ensure!(close(s, (cc.0 - w * f / 2.0, cc.1 - h * f / 2.0, cc.0 + w * f / 2.0, cc.1 + h * f / 2.0), 4.0 * m), "{x:?} scaled by {f}: {s:?}");
            if !r.chance(0.1) { return Ok("ok"); }
            let p = SimplePolygon::from(&x);
            ensure!(rb(&p.bbox()) == a && p.number_of_points() == 4 && (p.area() as f64 - w * h).abs() <= 2.0 * m * (w + h), "polygon of {x:?}: {p:?}");
            Ok("ok")
        }),
        group("intersection-union", "the intersection is the largest common rectangle or none when interiors do not overlap; the bounding rectangle is the smallest containing both", (200000, 2000000), |_, r| {
            let (a, b) = (mk(r), mk(r)); let (x, y) = (rect(a), rect(b));
            let e = (a.0.max(b.0), a.1.max(b.1), a.2.min(b.2), a.3.min(b.3));
            let none = e.0 >= e.2 || e.1 >= e.3;
            match AARectangle::from_intersection(&x, &y) { None => ensure!(none, "{x:?} and {y:?} overlap but have no intersection"), Some(g) => ensure!(!none && rb(&g) == e, "intersection of {x:?} and {y:?} = {g:?}") }
            let u = rb(&AARectangle::bounding_rectangle(&x, &y));
            ensure!(u == (a.0.min(b.0), a.1.min(b.1), a.2.max(b.2), a.3.max(b.3)), "bounding rectangle of {x:?} and {y:?} = {u:?}");
            Ok(if none { "disjoint" } else { "overlap" })
        }),
    ]);
}
