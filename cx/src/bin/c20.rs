use cx::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::problems::problem_generic::ProblemGeneric;
use jagua_rs::entities::solution::Solution;
use jagua_rs::geometry::geo_enums::AllowedRotation as AR;
use jagua_rs::geometry::transformation::Transformation;
use lbf::lbf_config::LBFConfig;
use lbf::lbf_optimizer::LBFOptimizer;
use rand::{rngs::SmallRng, SeedableRng};

/// clearance below which rounding may decide either way
const EPS: f64 = 5e-3;

/// points along the border of `a`, split at its crossings with `b`
fn border_pts(a: &[P], b: &[P]) -> Vec<P> {
    let mut v = vec![];
    for (p, q) in edges(a) {
        let mut ts = vec![0.0, 1.0];
        for (c, d) in edges(b) {
            let den = (q.0 - p.0) * (d.1 - c.1) - (q.1 - p.1) * (d.0 - c.0);
            if den != 0.0 { let t = ((c.0 - p.0) * (d.1 - c.1) - (c.1 - p.1) * (d.0 - c.0)) / den; if t > 0.0 && t < 1.0 { ts.push(t); } }
        }
        ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
        for w in ts.windows(2) { for k in 0..=4 { let t = w[0] + (w[1] - w[0]) * k as f64 / 4.0; v.push((p.0 + t * (q.0 - p.0), p.1 + t * (q.1 - p.1))); } }
    }
    v
}
fn grid_pts(a: &[P]) -> Vec<P> {
    let b = bbox(a);
    let mut v = vec![];
    for i in 1..10 { for j in 1..10 { let q = (b.0 + (b.2 - b.0) * i as f64 / 10.0, b.1 + (b.3 - b.1) * j as f64 / 10.0); if pip(a, q) == Loc::In { v.push(q); } } }
    v
}
fn deep(p: &[P], q: P) -> bool { pip(p, q) == Loc::In && border_dist(p, q) > EPS }
fn overlap(a: &[P], b: &[P]) -> bool {
    let (x, y) = (bbox(a), bbox(b));
    if x.2 < y.0 || y.2 < x.0 || x.3 < y.1 || y.3 < x.1 { return false; }
    border_pts(a, b).iter().any(|q| deep(b, *q)) || border_pts(b, a).iter().any(|q| deep(a, *q)) || grid_pts(a).iter().any(|q| deep(b, *q) && deep(a, *q))
}
fn sticks_out(a: &[P], outer: &[P]) -> bool { border_pts(a, outer).iter().any(|q| pip(outer, *q) == Loc::Out && border_dist(outer, *q) > EPS) }

struct W { inst: Instance, polys: Vec<Vec<P>>, bins: Vec<BinW>, height: f64, cfg: LBFConfig }
fn world(r: &mut Rng, strip: bool) -> W {
    let c = cfg(2 + r.us(4) as u8, *r.pick(&[20, 60, 150, 400]));
    let n = 1 + r.us(4);
    let mut polys = vec![];
    let items: Vec<(Item, usize)> = (0..n).map(|i| {
        let p = if r.chance(0.5) { let s = r.int(4, 16); int_poly(r, s) } else { let s = r.range(5.0, 18.0); real_poly(r, s) };
        // sometimes off-centre, so that rotations about the origin matter
        let t = if r.chance(0.5) { let c = centroid(&p); (-c.0, -c.1) } else { (r.int(-20, 20) as f64, r.int(-20, 20) as f64) };
        let p: Vec<P> = shift(&p, t).iter().map(|q| (q.0 as f32 as f64, q.1 as f32 as f64)).collect();
        let rot = match r.us(4) { 0 => AR::None, 1 => AR::Continuous, 2 => AR::Discrete(vec![0.0, 1.5, 3.0]), _ => AR::Discrete(vec![0.7]) };
        let q = if r.chance(0.5) { Some(r.us(11)) } else { None };
        polys.push(p.clone());
        let sc = surr(1 + r.us(4), r.us(3), r.us(3));
        (Item::new(i, sp(&p), rot, q, 1, Transformation::empty(), sc), 1 + r.us(4))
    }).collect();
    let mut bins = vec![];
    let height = r.int(28, 45) as f64;
    let inst = if strip { Instance::SP(SPInstance::new(items, height as f32)) } else {
        let nb = 1 + r.us(3);
        let bs = (0..nb).map(|i| { let sz = r.int(15, 50); let b = rand_bin(r, i, sz, c); let bin = b.bin.clone(); bins.push(b); (bin, r.us(4)) }).collect();
        Instance::BP(BPInstance::new(items, bs))
    };
    let cfg = LBFConfig { cde_config: c, poly_simpl_tolerance: None, prng_seed: Some(r.next()), n_samples: *r.pick(&[20, 100, 400]), ls_frac: *r.pick(&[0.0, 0.2, 0.9]), svg_draw_options: Default::default() };
    W { inst, polys, bins, height, cfg }
}
fn check(w: &W, s: &Solution, strip: bool) -> Result<(), String> {
    let mut qty = vec![0; w.polys.len()];
    let mut bq = vec![0; w.bins.len().max(1)];
    for l in &s.layout_snapshots {
        let (outer, statics) = if strip { let b = rb(&l.bin.bbox()); ensure!((b.3 - b.1 - w.height).abs() < 1e-3, "strip height changed to {}", b.3 - b.1); (rect_poly(b), vec![]) } else { bq[l.bin.id] += 1; (w.bins[l.bin.id].outer.clone(), w.bins[l.bin.id].statics.clone()) };
        let placed: Vec<(usize, Vec<P>)> = l.placed_items.values().map(|p| {
            let (t, a) = (p.d_transf.translation(), p.d_transf.rotation() as f64);
            (p.item_id, w.polys[p.item_id].iter().map(|q| rt(*q, a, (t.0 as f64, t.1 as f64))).collect())
        }).collect();
        for (pi, (id, sh)) in l.placed_items.values().zip(&placed) {
            qty[*id] += 1;
            let it = w.inst.item(*id);
            let a = pi.d_transf.rotation() as f64;
            let ok = |b: f64| { let d = (a - b).rem_euclid(std::f64::consts::TAU); d.min(std::f64::consts::TAU - d) < 1e-4 };
            match &it.allowed_rotation { AR::None => ensure!(ok(0.0), "item {id} rotated by {a}, no rotation allowed"), AR::Discrete(v) => ensure!(v.iter().any(|b| ok(*b as f64)), "item {id} rotated by {a}, allowed {v:?}"), AR::Continuous => {} }
            ensure!(!sticks_out(sh, &outer), "item {id} at {sh:?} sticks out of the container {outer:?}");
            for (e, h) in &statics {
                let relevant = match e { HazardEntity::BinHole { .. } => true, HazardEntity::InferiorQualityZone { quality, .. } => it.base_quality.map_or(true, |q| *quality < q), _ => false };
                ensure!(!relevant || !overlap(sh, h), "item {id} (quality {:?}) at {sh:?} overlaps {e:?} {h:?}", it.base_quality);
            }
        }
        for i in 0..placed.len() { for j in 0..i { ensure!(!overlap(&placed[i].1, &placed[j].1), "items {} and {} overlap: {:?} and {:?}", placed[i].0, placed[j].0, placed[i].1, placed[j].1); } }
    }
    for (i, q) in qty.iter().enumerate() {
        let d = w.inst.item_qty(i);
        ensure!(*q <= d && (!strip || *q == d), "{q} copies of item {i} placed, demand {d}");
        ensure!(s.placed_item_qtys[i] == *q, "solution reports {} copies of item {i}, {q} are placed", s.placed_item_qtys[i]);
    }
    if let Instance::BP(b) = &w.inst { for (i, q) in bq.iter().enumerate() { ensure!(*q <= b.bins[i].1, "{q} bins of type {i} used, stock {}", b.bins[i].1); } }
    Ok(())
}
fn same(a: &Solution, b: &Solution) -> bool {
    a.layout_snapshots.len() == b.layout_snapshots.len() && a.usage.to_bits() == b.usage.to_bits() && a.layout_snapshots.iter().zip(&b.layout_snapshots).all(|(x, y)| {
        x.bin.id == y.bin.id && x.placed_items.len() == y.placed_items.len()
            && x.placed_items.values().zip(y.placed_items.values()).all(|(p, q)| p.item_id == q.item_id && p.d_transf == q.d_transf)
    })
}
fn one(r: &mut Rng, strip: bool) -> Result<&'static str, String> {
    let w = world(r, strip);
    let mk = || LBFOptimizer::new(w.inst.clone(), w.cfg, SmallRng::seed_from_u64(w.cfg.prng_seed.unwrap()));
    let ctx = |e: String| format!("{e}\nitems {:?}\nbins {:?} strip height {} config {:?}", w.polys, w.bins.iter().map(|b| &b.statics).collect::<Vec<_>>(), w.height, w.cfg);
    let mut o = mk();
    let s = o.solve();
    check(&w, &s, strip).map_err(ctx)?;
    let again = mk().solve();
    ensure!(same(&s, &again), "two runs with the same seed differ\n{}", ctx(String::new()));
    // take some items out and let it continue
    if s.n_items_placed() > 0 && r.chance(0.5) {
        let p = &mut o.problem;
        let li: Vec<_> = p.layout_indices().collect();
        for l in li {
            let ks: Vec<_> = p.get_layout(l).placed_items().keys().collect();
            for k in ks { if r.chance(0.4) && (strip || p.get_layout(l).placed_items().len() > 1) { p.remove_item(l, k, true); } }
        }
        if strip && p.get_layout(jagua_rs::entities::problems::problem_generic::STRIP_LAYOUT_IDX).placed_items().is_empty() { return Ok("emptied"); }
        p.flush_changes();
        let s2 = o.solve();
        check(&w, &s2, strip).map_err(|e| ctx(format!("after removals: {e}")))?;
    }
    Ok(if s.n_items_placed() > 1 { "several" } else { "few" })
}

fn main() {
    main_with("C20", vec![
        group("bin-packing", "every solution of the optimizer is feasible, respects rotations, demand and stock, and is a function of the seed", (700, 20000), |_, r| one(r, false)),
        group("strip-packing", "every strip solution is feasible, places the whole demand, respects rotations, and is a function of the seed", (500, 15000), |_, r| one(r, true)),
    ]);
}
