use cx::*;
use jagua_rs::collision_detection::hazard::HazardEntity as HE;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use tribool::Tribool;

fn cls(t: Tribool) -> usize { match t { Tribool::True => 0, Tribool::False => 1, Tribool::Indeterminate => 2 } }
fn name(seen: [bool; 3]) -> &'static str { match seen { [true, true, true] => "all-three", [true, true, false] => "true+false", [true, false, _] => "true", [false, true, _] => "false", _ => "indeterminate-only" } }

fn main() {
    main_with("C04", vec![
        group("point", "point_definitely_collides_with: True only for points of the closed hazard region, False only for points not in its interior, never a definite answer outside the engine's box", (3000, 60000), |_, r| {
            let depth = r.us(7) as u8;
            let mut w = World::new(r, 24, depth, 0);
            for _ in 0..r.us(14) { w.step(r); }
            let hz = w.hazards();
            let cb = rb(w.layout.cde().bbox());
            let mut seen = [false; 3];
            for _ in 0..24 {
                let p = { let a = w.rand_pos(r); (a.0 + r.int(0, 3) as f64 / 4.0, a.1 + r.int(0, 3) as f64 / 4.0) };
                let (e, s) = r.pick(&hz).clone();
                let g = w.layout.cde().point_definitely_collides_with(&pt(p), e);
                seen[cls(g)] = true;
                let l = pip(&s, p);
                let (inn, out) = if e == HE::BinExterior { (l != Loc::In, l != Loc::Out) } else { (l != Loc::Out, l != Loc::In) };
                let ctx = || format!(" for point {p:?} and {e:?} {s:?} (location {l:?}) depth {depth}\n{}", w.describe());
                match g { Tribool::True => ensure!(inn, "True{}", ctx()), Tribool::False => ensure!(out, "False{}", ctx()), _ => {} }
                if !inside_bbox((p.0, p.1, p.0, p.1), cb) { ensure!(matches!(g, Tribool::Indeterminate), "definite answer outside the engine's box{}", ctx()); }
                // an entity that is not registered can not collide
                let e2 = HE::PlacedItem { id: 999, dt: dt0((1.0, 2.0)) };
                ensure!(cls(w.layout.cde().point_definitely_collides_with(&pt(p), e2)) != 0, "True for an entity that is not registered at {p:?}");
            }
            Ok(name(seen))
        }),
        group("edge", "edge_definitely_collides: True only if the edge meets a relevant hazard's region or leaves the engine's box, False only if it meets none", (3000, 60000), |_, r| {
            let depth = r.us(7) as u8;
            let mut w = World::new(r, 24, depth, 0);
            for _ in 0..r.us(14) { w.step(r); }
            let hz = w.hazards();
            let cb = rb(w.layout.cde().bbox());
            let mut seen = [false; 3];
            for _ in 0..24 {
                let a = w.rand_pos(r);
                let b = loop { let m = r.int(1, 12); let b = add(a, (r.int(-m, m) as f64, r.int(-m, m) as f64)); if b != a { break b; } };
                let irr = irr_subset(r, &hz);
                let g = w.layout.cde().edge_definitely_collides(&Edge::new(pt(a), pt(b)), &irr);
                seen[cls(g)] = true;
                let outb = !inside_bbox(bbox(&[a, b]), cb);
                let touch = hz.iter().any(|(e, s)| !irr.contains(e) && if *e == HE::BinExterior { edges(s).any(|(c, d)| seg_touch(a, b, c, d)) || pip(s, a) != Loc::In } else { seg_region_touch(a, b, s) });
                let ctx = || format!(" for edge {a:?} {b:?} irrelevant {irr:?} depth {depth}\n{}", w.describe());
                match g { Tribool::True => ensure!(touch || outb, "True{}", ctx()), Tribool::False => ensure!(!touch && !outb, "False{}", ctx()), _ => {} }
            }
            Ok(name(seen))
        }),
        group("circle", "circle_definitely_collides: True only if the disc meets a relevant hazard's region or its centre leaves the engine's box, False only if it meets none", (3000, 60000), |_, r| {
            let depth = r.us(7) as u8;
            let mut w = World::new(r, 24, depth, 0);
            for _ in 0..r.us(14) { w.step(r); }
            let hz = w.hazards();
            let cb = rb(w.layout.cde().bbox());
            let mut seen = [false; 3];
            for _ in 0..24 {
                let a = w.rand_pos(r);
                let rad = r.int(1, 20) as f64 / 4.0;
                let irr = irr_subset(r, &hz);
                let g = w.layout.cde().circle_definitely_collides(&Circle::new(pt(a), rad as f32), &irr);
                seen[cls(g)] = true;
                let outc = !inside_bbox((a.0, a.1, a.0, a.1), cb);
                let inb = inside_bbox((a.0 - rad, a.1 - rad, a.0 + rad, a.1 + rad), cb);
                // distance from centre to each relevant region
                let d = hz.iter().filter(|h| !irr.contains(&h.0)).map(|(e, s)| { let l = pip(s, a); let inn = if *e == HE::BinExterior { l != Loc::In } else { l != Loc::Out }; if inn { 0.0 } else { border_dist(s, a) } }).fold(f64::MAX, f64::min);
                let ctx = || format!(" for circle {a:?} r={rad} irrelevant {irr:?} depth {depth} (distance to nearest relevant hazard {d})\n{}", w.describe());
                match g {
                    Tribool::True => ensure!(d <= rad + 1e-4 || outc, "True{}", ctx()),
                    Tribool::False => ensure!(!outc && (!inb || d >= rad - 1e-4), "False{}", ctx()),
                    _ => {}
                }
            }
            Ok(name(seen))
        }),
        group("deep-tree-decides", "far from every border the answer is definite on a deep tree (it is not vacuously Indeterminate)", (600, 6000), |_, r| {
            let mut w = World::new(r, 24, 8, 0);
            for _ in 0..r.us(6) { w.step(r); }
            let hz = w.hazards();
            let cb = rb(w.layout.cde().bbox());
            let cell = (cb.2 - cb.0) / 256.0;
            for _ in 0..20 {
                let a = { let q = w.rand_pos(r); (q.0 + 0.25, q.1 + 0.5) };
                if !inside_bbox((a.0, a.1, a.0, a.1), cb) { continue; }
                for (e, s) in &hz {
                    if border_dist(s, a) <= 3.0 * cell { continue; }
                    let exp = (pip(s, a) == Loc::In) != (*e == HE::BinExterior);
                    let g = w.layout.cde().point_definitely_collides_with(&pt(a), *e);
                    ensure!(cls(g) == if exp { 0 } else { 1 }, "{g:?} for point {a:?} at distance {} from {e:?} {s:?}", border_dist(s, a));
                }
            }
            Ok("ok")
        }),
    ]);
}
