use cx::*;
use jagua_rs::collision_detection::hazard::HazardEntity as HE;
use jagua_rs::entities::layout::LayoutSnapshot;

/// every cell of the grid holds the proximities that the present hazards dictate
fn check(w: &World, when: &str) -> Result<usize, String> {
    let g = match w.layout.cde().haz_prox_grid() { Ok(g) => g, Err(_) => return Err(format!("grid reported dirty although everything was flushed ({when})")) };
    let ctx = || format!("({when})\n{}", w.describe());
    let poles: Vec<(HE, Vec<(P, f64)>)> = w.placed.iter().map(|(k, e, _)| (*e, w.layout.placed_items()[*k].shape.surrogate().poles.iter().map(|c| (fp(c.center), c.radius as f64)).collect())).collect();
    let tol = 2e-4;
    let mut dynamic = 0;
    for c in g.grid.cells.iter().flatten() {
        let q = fp(c.centroid);
        let bb = rb(&c.bbox);
        ensure!(dist(q, ((bb.0 + bb.2) / 2.0, (bb.1 + bb.3) / 2.0)) < 1e-3 && (c.radius as f64 - dist((bb.0, bb.1), (bb.2, bb.3)) / 2.0).abs() < 1e-3, "cell geometry {c:?} {}", ctx());
        // which side of a border the centroid is on is settled only up to the library's float tolerance (about 3.5e-4 relative)
        if w.bw.statics.iter().any(|(_, s)| border_dist(s, q) < 1e-3 + 1e-3 * q.0.abs().max(q.1.abs())) { continue; }
        let prox = |e: &HE, s: &[P]| { let l = pip(s, q); let inn = if *e == HE::BinExterior { l == Loc::Out } else { l == Loc::In }; if inn { 0.0 } else { border_dist(s, q) } };
        let stat = w.bw.statics.iter().filter(|(e, _)| !matches!(e, HE::InferiorQualityZone { .. })).map(|(e, s)| prox(e, s)).fold(f64::MAX, f64::min);
        ensure!((c.static_uni_prox.0 as f64 - stat).abs() <= tol, "static proximity {:?}, exact {stat} at {q:?} {}", c.static_uni_prox, ctx());
        for k in 0..10 {
            let d = w.bw.statics.iter().filter(|(e, _)| matches!(e, HE::InferiorQualityZone { quality, .. } if *quality == k)).map(|(e, s)| prox(e, s)).fold(f64::MAX, f64::min);
            let got = c.qz_prox[k] as f64;
            ensure!(if d == f64::MAX { c.qz_prox[k] == f32::MAX } else { (got - d).abs() <= tol }, "quality {k} proximity {got}, exact {d} at {q:?} {}", ctx());
        }
        let dy: Vec<(HE, f64)> = poles.iter().map(|(e, ps)| (*e, ps.iter().map(|(p, r)| (dist(*p, q) - r).max(0.0)).fold(f64::MAX, f64::min))).collect();
        let uni = dy.iter().map(|x| x.1).fold(stat, f64::min);
        ensure!((c.uni_prox.0 as f64 - uni).abs() <= tol, "universal proximity {:?}, exact {uni} (static {stat}, dynamic {dy:?}) at {q:?} {}", c.uni_prox, ctx());
        // the recorded entity is present and at that distance
        let of = match &c.uni_prox.1 {
            e if e.is_dynamic() => dy.iter().find(|x| x.0 == *e).map(|x| x.1),
            e => w.bw.statics.iter().find(|x| x.0 == *e).map(|(e, s)| prox(e, s)),
        };
        ensure!(of.map_or(false, |d| (d - uni).abs() <= 2.0 * tol), "closest entity {:?} is absent or further away ({of:?}) than {uni} at {q:?} {}", c.uni_prox, ctx());
        if c.uni_prox.1.is_dynamic() { dynamic += 1; }
        for ql in [None, Some(0), Some(1), Some(5), Some(10)] {
            let hp = c.hazard_proximity(ql) as f64;
            let exp = (0..ql.unwrap_or(10)).map(|k| c.qz_prox[k] as f64).fold(c.uni_prox.0 as f64, f64::min);
            ensure!(hp == exp, "hazard_proximity({ql:?}) {hp}, expected {exp} {}", ctx());
        }
    }
    Ok(dynamic)
}

fn main() {
    main_with("C09", vec![
        group("history", "after any history of placements, deferred or immediate removals, flushes, snapshots and restores, every flushed cell holds the exact static proximity, the exact quality-zone proximities and the distance to the nearest pole of any placed item", (1500, 30000), |_, r| {
            let n = [20usize, 60, 150, 400][r.us(4)];
            let depth = r.us(4) as u8;
            let mut w = World::new(r, 24, depth, n);
            let mut snaps: Vec<(LayoutSnapshot, Vec<_>)> = vec![];
            let mut pending = false;
            let mut dynamic = 0;
            for s in 0..8 + r.us(14) {
                match r.us(10) {
                    0..=4 => {
                        for _ in 0..6 { let t = w.rand_pos(r); let i = r.us(4); if w.fits(i, t) { w.place(i, t); break; } }
                    }
                    5 if !w.placed.is_empty() => { let j = r.us(w.placed.len()); w.remove(j, true); }
                    6 if !w.placed.is_empty() => { let j = r.us(w.placed.len()); w.remove(j, false); pending = true; }
                    7 if !w.removed.is_empty() => { let k = r.us(w.removed.len()); let (i, t) = w.removed.swap_remove(k); w.place(i, t); }
                    8 if r.chance(0.5) => { let sn = w.layout.create_snapshot(); pending = false; snaps.push((sn, w.placed.clone())); }
                    9 if !snaps.is_empty() => { let i = r.us(snaps.len()); w.layout.restore(&snaps[i].0); w.placed = snaps[i].1.clone(); w.removed.clear(); pending = false; }
                    _ => { w.layout.flush_changes(); pending = false; }
                }
                // access may only be refused while deferred removals are pending; whenever it is granted, the values are exact
                let ok = w.layout.cde().haz_prox_grid().is_ok();
                ensure!(ok || pending, "grid reported dirty although no removal is pending (step {s})");
                if ok && r.chance(0.5) { dynamic += check(&w, &format!("step {s}"))?; }
            }
            w.layout.flush_changes();
            dynamic += check(&w, "end")?;
            Ok(if dynamic > 0 { "dynamic" } else { "static-only" })
        }),
        group("many-poles", "the same with items that have many poles, on fine grids", (400, 8000), |_, r| {
            let mut w = World::new(r, 30, 3, 500);
            w.items = (0..4).map(|i| { let sz = r.int(6, 22); let p = int_poly(r, sz); (item(i, &p, None, surr(8, 3, 0)), p) }).collect();
            for _ in 0..12 { w.step_fit(r); }
            w.layout.flush_changes();
            let d = check(&w, "end")?;
            Ok(if d > 0 { "dynamic" } else { "static-only" })
        }),
    ]);
}
