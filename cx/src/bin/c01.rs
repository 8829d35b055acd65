use cx::*;
use jagua_rs::collision_detection::cd_engine::CDEngine;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity};
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::{Shape, Transformable};
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use std::sync::{Arc, OnceLock};

fn tris() -> &'static Vec<(Vec<P>, Arc<SimplePolygon>)> {
    static T: OnceLock<Vec<(Vec<P>, Arc<SimplePolygon>)>> = OnceLock::new();
    T.get_or_init(|| {
        let g: Vec<P> = (0..4).flat_map(|x| (0..4).map(move |y| (x as f64, y as f64))).collect();
        let mut v = vec![];
        for i in 0..16 { for j in i + 1..16 { for k in j + 1..16 {
            let p = vec![g[i], g[j], g[k]];
            if area2(&p) == 0.0 { continue; }
            let mut s = sp(&p);
            s.generate_surrogate(surr(1, 1, 0));
            v.push((p, Arc::new(s)));
        } } }
        v
    })
}

fn main() {
    main_with("C01", vec![
        group("random-layout", "poly_collides == (query not inside engine box) or some relevant hazard's closed region meets the query", (2500, 60000), |_, r| {
            let depth = r.us(7) as u8;
            let mut w = World::new(r, 24, depth, 0);
            for _ in 0..r.us(12) { w.step(r); }
            let hz = w.hazards();
            let cb = rb(w.layout.cde().bbox());
            let mut any = "free";
            for _ in 0..12 {
                let sz = r.int(1, 14);
                let q = { let p = int_poly(r, sz); shift(&p, w.rand_pos(r)) };
                let irr = irr_subset(r, &hz);
                let exp = !inside_bbox(bbox(&q), cb) || hz.iter().any(|(e, s)| !irr.contains(e) && haz_hits_poly(e, s, &q));
                let got = w.layout.cde().poly_collides(&sp(&q), &irr);
                ensure!(got == exp, "poly_collides returned {got}, exact answer is {exp}\nquadtree depth {depth}\nquery {q:?}\nirrelevant {irr:?}\n{}", w.describe());
                if got { any = "collision" }
            }
            Ok(any)
        }),
        group("placed-items-of-layout", "queries with the shapes of placed items themselves, ignoring themselves", (1500, 30000), |_, r| {
            let depth = r.us(6) as u8;
            let mut w = World::new(r, 20, depth, 0);
            for _ in 0..14 { w.step(r); }
            let hz = w.hazards();
            let cb = rb(w.layout.cde().bbox());
            for (k, e, p) in &w.placed {
                let shape = &w.layout.placed_items()[*k].shape;
                ensure!(pts(shape).len() == p.len() && { let mut a = pts(shape); let mut b = p.clone(); let o = |x: &P, y: &P| x.partial_cmp(y).unwrap(); a.sort_by(o); b.sort_by(o); a == b }, "placed shape differs from the item translated: {p:?} vs {:?}", pts(shape));
                let exp = !inside_bbox(bbox(p), cb) || hz.iter().any(|(e2, s)| e2 != e && haz_hits_poly(e2, s, p));
                let got = w.layout.cde().poly_collides(shape, &[*e]);
                ensure!(got == exp, "poly_collides for placed item {e:?} returned {got}, exact answer {exp}\ndepth {depth}\n{}", w.describe());
            }
            Ok(if w.placed.len() > 1 { "multi" } else { "few" })
        }),
        exhaustive("triangle-pairs", "all pairs of non-degenerate lattice triangles in a 4x4 grid, one as hazard, one as query, at several quadtree depths", (516 * 2, 516 * 5), |i, _| {
            let t = tris();
            let (hi, depth) = ((i % 516) as usize, [3u8, 1, 0, 2, 5][(i / 516) as usize]);
            let outer = Arc::new(sp(&rect_poly((-1.0, -1.0, 4.0, 4.0))));
            let mut cde = CDEngine::new(outer.bbox().inflate_to_square(), vec![Hazard::new(HazardEntity::BinExterior, outer.clone())], cfg(depth, 0));
            let e = HazardEntity::PlacedItem { id: 0, dt: DTransformation::empty() };
            cde.register_hazard(Hazard::new(e, t[hi].1.clone()));
            for (q, qs) in t {
                let exp = regions_touch(q, &t[hi].0);
                let got = cde.poly_collides(qs, &[]);
                ensure!(got == exp, "depth {depth}: hazard {:?} query {q:?}: poly_collides {got}, exact {exp}", t[hi].0);
                let got = cde.poly_collides(qs, &[e]);
                ensure!(!got, "depth {depth}: hazard {:?} declared irrelevant, query {q:?} still collides", t[hi].0);
            }
            Ok("pair")
        }),
        group("rotated-real", "continuously rotated and translated queries against real-valued hazards, decided with a clearance margin", (1500, 40000), |_, r| {
            let depth = r.us(7) as u8;
            let s = 100.0;
            let outer = if r.chance(0.5) { rect_poly((0.0, 0.0, s, r.range(60.0, 100.0) as f32 as f64)) } else { loop { let p = real_poly(r, s); if area(&p).abs() > 4000.0 { break p } } };
            let bw = bin_w(0, outer, vec![], vec![], cfg(depth, 0));
            let mut l = jagua_rs::entities::layout::Layout::new(0, bw.bin.clone());
            let its: Vec<_> = (0..3).map(|i| { let sz = r.range(10.0, 40.0); let p = real_poly(r, sz); item(i, &p, None, surr(3, 2, 0)) }).collect();
            let tr = |r: &mut Rng| DTransformation::new(r.range(-7.0, 7.0) as f32, (r.range(-10.0, 110.0) as f32, r.range(-10.0, 110.0) as f32));
            let mut hz = bw.statics.clone();
            for _ in 0..1 + r.us(4) { let d = tr(r); let k = l.place_item(&its[r.us(3)], d); let pi = &l.placed_items()[k]; hz.push((HazardEntity::from(pi), pts(&pi.shape))); }
            let cb = rb(l.cde().bbox());
            let mut n = 0;
            for _ in 0..20 {
                let d = tr(r);
                let q = its[r.us(3)].shape.transform_clone(&d.compose());
                let qp = pts(&q);
                let qb = bbox(&qp);
                let margin = hz.iter().map(|(_, s)| borders_dist(s, &qp)).fold(f64::MAX, f64::min).min((qb.0 - cb.0).abs()).min((qb.1 - cb.1).abs()).min((qb.2 - cb.2).abs()).min((qb.3 - cb.3).abs());
                let irr = irr_subset(r, &hz);
                let hit: Vec<bool> = hz.iter().map(|(e, s)| !irr.contains(e) && haz_hits_poly(e, s, &qp)).collect();
                let exp = !inside_bbox(qb, cb) || hit.iter().any(|x| *x);
                // boundaries within the margin may fall either way through rounding
                let depth_ok = margin > 0.05 || (exp && hz.iter().zip(&hit).any(|((e, s), h)| *h && *e != HazardEntity::BinExterior && qp.iter().any(|v| pip(s, *v) == Loc::In && border_dist(s, *v) > 0.05)));
                if !depth_ok { continue; }
                n += 1;
                let got = l.cde().poly_collides(&q, &irr);
                ensure!(got == exp, "poly_collides {got}, oracle {exp} (margin {margin})\ndepth {depth}\nquery {qp:?}\nirrelevant {irr:?}\nhazards {hz:?}");
            }
            Ok(if n > 0 { "decided" } else { "all-marginal" })
        }),
    ]);
}
