use cx::*;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity as HE};
use jagua_rs::collision_detection::hazard_filter::*;
use jagua_rs::geometry::d_transformation::DTransformation as D;
use jagua_rs::geometry::geo_enums::GeoPosition as G;
use std::sync::Arc;

fn ent(r: &mut Rng) -> HE {
    match r.us(4) { 0 => HE::BinExterior, 1 => HE::BinHole { id: r.us(4) }, 2 => HE::InferiorQualityZone { quality: r.us(10), id: r.us(3) },
        _ => HE::PlacedItem { id: r.us(4), dt: D::new(0.0, (r.int(0, 3) as f32, 0.0)) } }
}
fn main() {
    main_with("C21", vec![
        exhaustive("quality-filter", "a quality requirement ignores exactly the zones of at least that quality and nothing else (all qualities and requirements)", (11 * 10, 11 * 10), |i, _| {
            let (q, z) = (i as usize / 10, i as usize % 10);
            let f = QZHazardFilter(q);
            for id in [0, 1, 7] { ensure!(f.is_irrelevant(&HE::InferiorQualityZone { quality: z, id }) == (z >= q), "zone of quality {z} for requirement {q}"); }
            for e in [HE::BinExterior, HE::BinHole { id: z }, HE::PlacedItem { id: z, dt: D::empty() }] { ensure!(!f.is_irrelevant(&e), "{e:?} ignored by quality requirement {q}"); }
            let p = rect_poly((0.0, 0.0, 4.0, 4.0));
            let it = item(3, &p, Some(q), surr(1, 1, 0));
            ensure!(it.hazard_filter.as_ref().map_or(false, |f| f.is_irrelevant(&HE::InferiorQualityZone { quality: z, id: 0 }) == (z >= q)), "the item's own filter for quality {q}");
            ensure!(item(3, &p, None, surr(1, 1, 0)).hazard_filter.is_none(), "an item without quality requirement must ignore nothing");
            Ok("ok")
        }),
        group("filters", "bin, entity and combined filters ignore exactly what they say, and filtering a set of hazards returns exactly the ignored ones", (30000, 300000), |_, r| {
            let shape = Arc::new(sp(&rect_poly((0.0, 0.0, 1.0, 1.0))));
            let mut es: Vec<HE> = vec![]; for _ in 0..r.us(12) { let e = ent(r); if !es.contains(&e) { es.push(e); } }
            let hz: Vec<Hazard> = es.iter().map(|e| Hazard::new(*e, shape.clone())).collect();
            let list: Vec<HE> = { let n = r.us(5); (0..n).map(|_| ent(r)).collect() };
            let q = r.us(11);
            let (fb, fe, fq) = (BinHazardFilter, EntityHazardFilter(list.clone()), QZHazardFilter(q));
            let mask = r.us(8);
            let mut fs: Vec<Box<&dyn HazardFilter>> = vec![];
            if mask & 1 > 0 { fs.push(Box::new(&fb)); } if mask & 2 > 0 { fs.push(Box::new(&fe)); } if mask & 4 > 0 { fs.push(Box::new(&fq)); }
            let fc = CombinedHazardFilter { filters: fs };
            let ib = |e: &HE| !matches!(e, HE::PlacedItem { .. });
            let ie = |e: &HE| list.contains(e);
            let iq = |e: &HE| matches!(e, HE::InferiorQualityZone { quality, .. } if *quality >= q);
            let ic = |e: &HE| (mask & 1 > 0 && ib(e)) || (mask & 2 > 0 && ie(e)) || (mask & 4 > 0 && iq(e));
            for e in &es {
                ensure!(fb.is_irrelevant(e) == ib(e), "bin filter on {e:?}"); ensure!(fe.is_irrelevant(e) == ie(e), "entity filter {list:?} on {e:?}");
                ensure!(fq.is_irrelevant(e) == iq(e), "quality filter {q} on {e:?}"); ensure!(fc.is_irrelevant(e) == ic(e), "combined filter (mask {mask}) on {e:?}");
                ensure!((e.position() == G::Exterior) == (*e == HE::BinExterior), "position of {e:?}");
                ensure!(e.is_dynamic() == matches!(e, HE::PlacedItem { .. }), "is_dynamic of {e:?}");
                ensure!(e.is_universal() != matches!(e, HE::InferiorQualityZone { .. }), "is_universal of {e:?}");
            }
            let g = |f: &dyn Fn(&HE) -> bool| es.iter().filter(|e| f(e)).cloned().collect::<Vec<_>>();
            ensure!(generate_irrelevant_hazards(&fb, hz.iter()) == g(&ib), "bin filter on a set");
            ensure!(generate_irrelevant_hazards(&fe, hz.iter()) == g(&ie), "entity filter on a set");
            ensure!(generate_irrelevant_hazards(&fq, hz.iter()) == g(&iq), "quality filter on a set");
            ensure!(generate_irrelevant_hazards(&fc, hz.iter()) == g(&ic), "combined filter on a set");
            Ok("ok")
        }),
        group("bin-hazards", "a bin offers exactly its exterior, its holes and its quality zones as hazards, with their shapes, and a layout adds exactly its placed items", (2000, 40000), |_, r| {
            let mut w = World::new(r, 22, 3, 0);
            for _ in 0..r.us(8) { w.step(r); }
            let exp = w.hazards();
            let got: Vec<&Hazard> = w.layout.cde().all_hazards().collect();
            ensure!(got.len() == exp.len(), "{} hazards instead of {}", got.len(), exp.len());
            for (e, s) in &exp {
                let h = got.iter().filter(|h| h.entity == *e).collect::<Vec<_>>();
                ensure!(h.len() == 1 && h[0].active, "hazard {e:?} appears {} times", h.len());
                let p = pts(&h[0].shape);
                ensure!(p.len() == s.len() && p.iter().all(|q| s.iter().any(|t| dist(*q, *t) < 1e-4)), "hazard {e:?} has shape {p:?} instead of {s:?}");
            }
            Ok("ok")
        }),
        group("quality-placement", "an item with a quality requirement collides with a zone exactly when the zone's quality is below the requirement, and always when it has no requirement", (4000, 80000), |_, r| {
            let q = r.us(10);
            let z = shift(&rect_poly((0.0, 0.0, 6.0, 6.0)), (r.int(8, 14) as f64, r.int(8, 14) as f64));
            let dp = r.us(5) as u8;
            let bw = bin_w(0, rect_poly((0.0, 0.0, 30.0, 30.0)), vec![], vec![(q, vec![z.clone()])], cfg(dp, 0));
            let l = jagua_rs::entities::layout::Layout::new(0, bw.bin.clone());
            let req = if r.chance(0.2) { None } else { Some(r.us(11)) };
            let sz = r.int(3, 9); let p = int_poly(r, sz);
            let it = item(0, &p, req, surr(2, 1, 0));
            let t = (r.int(1, 20) as f64, r.int(1, 20) as f64);
            let s = shift(&p, t);
            let irr = it.hazard_filter.as_ref().map_or(vec![], |f| generate_irrelevant_hazards(f, l.cde().all_hazards()));
            let hits_zone = regions_touch(&s, &z); let out = !strictly_inside(&s, &bw.outer);
            let exp = out || (hits_zone && req.map_or(true, |k| q < k));
            let got = l.cde().poly_collides(&sp(&s), &irr);
            ensure!(got == exp, "item {s:?} with requirement {req:?}, zone of quality {q} {z:?}: collides {got}, expected {exp}");
            Ok(if hits_zone && !out { if exp { "refused" } else { "allowed" } } else { "clear" })
        }),
    ]);
}
