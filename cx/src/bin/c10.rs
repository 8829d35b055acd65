use cx::*;
use jagua_rs::collision_detection::hazard::HazardEntity as HE;
use jagua_rs::collision_detection::hazard_filter::generate_irrelevant_hazards;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_traits::Transformable;

fn main() {
    main_with("C10", vec![
        group("never-discards-feasible", "if an item can be placed collision-free with its pole of inaccessibility centred in a cell, that cell is not discarded", (2500, 50000), |_, r| {
            let n = [10usize, 30, 80, 200, 600][r.us(5)];
            let mut w = World::new(r, 30, 3, n);
            w.items = (0..4).map(|i| { let sz = r.int(2, 14); let p = int_poly(r, sz); let np = 1 + r.us(4); let q = if r.chance(0.5) { Some(r.us(11)) } else { None }; (item(i, &p, q, surr(np, 1, 0)), p) }).collect();
            for _ in 0..r.us(10) {
                let t = w.rand_pos(r); let i = r.us(4);
                let q = shift(&w.items[i].1, t);
                // items respect the bin and each other
                if !w.hazards().iter().any(|(e, s)| !matches!(e, HE::InferiorQualityZone { .. }) && haz_hits_poly(e, s, &q)) { w.place(i, t); }
                else if !w.placed.is_empty() && r.chance(0.2) { let j = r.us(w.placed.len()); let c = r.chance(0.5); w.remove(j, c); }
            }
            w.layout.flush_changes();
            let g = w.layout.cde().haz_prox_grid().map_err(|_| "dirty".to_string())?;
            let cells: Vec<_> = g.grid.cells.iter().flatten().collect();
            let (mut feas, mut disc) = (0, 0);
            for _ in 0..60 {
                let it = &w.items[r.us(4)].0;
                let c = cells[r.us(cells.len())];
                if !c.could_accommodate_item(it) { disc += 1; }
                // put the pole of inaccessibility somewhere in the cell, with any rotation
                let rot = if r.chance(0.3) { 0.0 } else { r.range(0.0, 6.3) };
                let b = rb(&c.bbox);
                let target = (r.range(b.0, b.2), r.range(b.1, b.3));
                let poi = rt(fp(it.shape.poi.center), rot as f32 as f64, (0.0, 0.0));
                let d = DTransformation::new(rot as f32, ((target.0 - poi.0) as f32, (target.1 - poi.1) as f32));
                let irr = it.hazard_filter.as_ref().map_or(vec![], |f| generate_irrelevant_hazards(f, w.layout.cde().all_hazards()));
                let q = it.shape.transform_clone(&d.compose());
                let pq = pts(&q);
                let free = !w.hazards().iter().any(|(e, s)| !irr.contains(e) && (haz_hits_poly(e, s, &pq) || borders_dist(s, &pq) < 1e-3));
                if free && inside_bbox(bbox(&pq), rb(w.layout.cde().bbox())) {
                    feas += 1;
                    ensure!(c.could_accommodate_item(it), "cell {:?} (radius {}) discarded for item {} (poi radius {}, quality {:?}) although placing it at {d:?} is feasible; hazard proximity {}\n{}", c.bbox, c.radius, it.id, it.shape.poi.radius, it.base_quality, c.hazard_proximity(it.base_quality), w.describe());
                }
            }
            Ok(match (feas > 0, disc > 0) { (true, true) => "feasible+discarded", (true, false) => "feasible", (false, true) => "discarded", _ => "neither" })
        }),
        group("discards-something", "a cell whose surroundings are hazardous is discarded: the grid is not vacuously permissive", (600, 6000), |_, r| {
            let mut w = World::new(r, 30, 3, 400);
            for _ in 0..8 { w.step_fit(r); }
            w.layout.flush_changes();
            let g = w.layout.cde().haz_prox_grid().map_err(|_| "dirty".to_string())?;
            for c in g.grid.cells.iter().flatten() {
                for (it, _) in &w.items {
                    let poi = it.shape.poi.radius;
                    let hp = c.hazard_proximity(it.base_quality);
                    // pole centred anywhere in the cell must reach a hazard
                    if poi as f64 > (hp + 2.0 * c.radius) as f64 + 1e-3 && poi >= c.radius { ensure!(!c.could_accommodate_item(it), "cell with hazard proximity {hp} and radius {} accepted for poi radius {poi}", c.radius); }
                }
            }
            Ok("ok")
        }),
    ]);
}
