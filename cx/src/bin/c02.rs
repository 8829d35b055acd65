use cx::*;
use jagua_rs::collision_detection::hazard::HazardEntity as HE;
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use jagua_rs::geometry::geo_traits::Shape;

fn world(r: &mut Rng, depth: u8) -> World {
    let mut w = World::new(r, 24, depth, 0);
    for _ in 0..r.us(14) { w.step(r); }
    w
}
/// the engine must keep what was in the buffer, in order, and only append
fn appended<'a>(init: &[HE], out: &'a [HE]) -> Result<&'a [HE], String> {
    ensure!(out.len() >= init.len() && &out[..init.len()] == init, "buffer content before the call was not preserved: {init:?} -> {out:?}");
    let t = &out[init.len()..];
    for (i, a) in t.iter().enumerate() { ensure!(!t[i + 1..].contains(a), "entity {a:?} collected twice: {out:?}"); }
    Ok(t)
}
fn same_set(a: &[HE], b: &[HE]) -> bool { a.len() == b.len() && a.iter().all(|x| b.contains(x)) }

fn main() {
    main_with("C02", vec![
        group("poly-set", "collect_poly_collisions appends exactly the relevant hazards whose region meets the query polygon, each once, and keeps the buffer's earlier content", (3000, 60000), |_, r| {
            let depth = r.us(6) as u8;
            let w = world(r, depth);
            let hz = w.hazards();
            let cb = rb(w.layout.cde().bbox());
            let mut class = "none";
            for _ in 0..12 {
                let sz = r.int(1, 20);
                let q = { let p = int_poly(r, sz); shift(&p, w.rand_pos(r)) };
                let irr = irr_subset(r, &hz);
                let init: Vec<HE> = if r.chance(0.5) { vec![] } else { hz.iter().filter(|h| !irr.contains(&h.0) && r.chance(0.3)).map(|h| h.0).collect() };
                let exp: Vec<HE> = hz.iter().filter(|(e, s)| !irr.contains(e) && !init.contains(e) && haz_hits_poly(e, s, &q)).map(|h| h.0).collect();
                let mut out = init.clone();
                w.layout.cde().collect_poly_collisions(&sp(&q), &irr, &mut out);
                let got = appended(&init, &out)?;
                if inside_bbox(bbox(&q), cb) {
                    ensure!(same_set(got, &exp), "collected {got:?}, exact set is {exp:?}\ndepth {depth} query {q:?}\nirrelevant {irr:?} initial {init:?}\n{}", w.describe());
                } else {
                    ensure!(got.iter().all(|e| exp.contains(e)), "collected {got:?} not a subset of {exp:?}\ndepth {depth} query {q:?}\nirrelevant {irr:?} initial {init:?}\n{}", w.describe());
                }
                if got.len() > 1 { class = "several" } else if got.len() == 1 && class == "none" { class = "one" }
            }
            Ok(class)
        }),
        group("collect-agrees-with-collides", "poly_collides is true exactly when the collected set is non-empty (query inside the engine's box)", (1500, 30000), |_, r| {
            let depth = r.us(7) as u8;
            let w = world(r, depth);
            let hz = w.hazards();
            let cb = rb(w.layout.cde().bbox());
            let mut n = 0;
            for _ in 0..12 {
                let sz = r.int(1, 12);
                let q = { let p = int_poly(r, sz); shift(&p, w.rand_pos(r)) };
                if !inside_bbox(bbox(&q), cb) { continue; }
                let irr = irr_subset(r, &hz);
                let s = sp(&q);
                let mut out = vec![];
                w.layout.cde().collect_poly_collisions(&s, &irr, &mut out);
                let b = w.layout.cde().poly_collides(&s, &irr);
                ensure!(b == !out.is_empty(), "poly_collides {b} but collected {out:?}\ndepth {depth} query {q:?} irrelevant {irr:?}\n{}", w.describe());
                n += out.len();
            }
            Ok(if n > 0 { "hit" } else { "free" })
        }),
        group("within-probe", "hazards_within (rectangle, circle, edge) reports every relevant hazard whose border the probe meets, nothing that the probe does not meet, and keeps the buffer", (3000, 60000), |_, r| {
            let depth = r.us(6) as u8;
            let w = world(r, depth);
            let hz = w.hazards();
            let cb = rb(w.layout.cde().bbox());
            let mut class = "none";
            for k in 0..18 {
                let a = w.rand_pos(r);
                let irr = irr_subset(r, &hz);
                let init: Vec<HE> = if r.chance(0.6) { vec![] } else { hz.iter().filter(|h| !irr.contains(&h.0) && r.chance(0.3)).map(|h| h.0).collect() };
                let mut out = init.clone();
                // (must report, may report) per hazard
                let tr: Vec<(bool, bool)>;
                let cen: P;
                let inside: bool;
                let desc: String;
                match k % 3 {
                    0 => {
                        let b = (a.0, a.1, a.0 + r.int(1, 9) as f64, a.1 + r.int(1, 9) as f64);
                        let q = rect_poly(b);
                        let rc = rect(b);
                        cen = fp(rc.centroid()); inside = inside_bbox(b, cb); desc = format!("rect {b:?}");
                        w.layout.cde().hazards_within(&rc, &irr, &mut out);
                        tr = hz.iter().map(|(e, s)| (borders_touch(&q, s) || strictly_inside(s, &q), haz_hits_poly(e, s, &q))).collect();
                    }
                    1 => {
                        let rad = r.int(1, 16) as f64 / 2.0;
                        let c = Circle::new(pt(a), rad as f32);
                        cen = a; inside = inside_bbox((a.0 - rad, a.1 - rad, a.0 + rad, a.1 + rad), cb); desc = format!("circle {a:?} r={rad}");
                        w.layout.cde().hazards_within(&c, &irr, &mut out);
                        tr = hz.iter().map(|(e, s)| {
                            let d = border_dist(s, a);
                            let inn = match e { HE::BinExterior => pip(s, a) != Loc::In, _ => pip(s, a) != Loc::Out };
                            (d <= rad - 1e-4, inn || d <= rad + 1e-4)
                        }).collect();
                    }
                    _ => {
                        let b = loop { let b = add(a, (r.int(-9, 9) as f64, r.int(-9, 9) as f64)); if b != a { break b; } };
                        cen = ((a.0 + b.0) / 2.0, (a.1 + b.1) / 2.0); inside = inside_bbox(bbox(&[a, b]), cb); desc = format!("edge {a:?} {b:?}");
                        w.layout.cde().hazards_within(&Edge::new(pt(a), pt(b)), &irr, &mut out);
                        tr = hz.iter().map(|(e, s)| {
                            let must = edges(s).any(|(c, d)| seg_touch(a, b, c, d) && !parallel(a, b, c, d));
                            let may = match e { HE::BinExterior => edges(s).any(|(c, d)| seg_touch(a, b, c, d)) || pip(s, a) != Loc::In, _ => seg_region_touch(a, b, s) };
                            (must, may)
                        }).collect();
                    }
                }
                let got = appended(&init, &out)?;
                let ctx = || format!("\ndepth {depth} probe {desc}\nirrelevant {irr:?} initial {init:?} appended {got:?}\n{}", w.describe());
                for ((e, _), (must, may)) in hz.iter().zip(&tr) {
                    let skip = irr.contains(e) || init.contains(e);
                    let has = got.contains(e);
                    ensure!(!(has && skip), "irrelevant or already detected {e:?} was appended{}", ctx());
                    let out_of_box = *e == HE::BinExterior && !inside_bbox((cen.0, cen.1, cen.0, cen.1), cb);
                    ensure!(!has || *may || out_of_box, "{e:?} reported although the probe does not meet it{}", ctx());
                    if inside { ensure!(has || skip || !*must, "{e:?} not reported although the probe meets its border{}", ctx()); }
                }
                ensure!(got.iter().all(|e| hz.iter().any(|h| h.0 == *e)), "unknown entity reported{}", ctx());
                if got.len() > 1 { class = "several" } else if got.len() == 1 && class == "none" { class = "one" }
            }
            Ok(class)
        }),
    ]);
}
