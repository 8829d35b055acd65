use cx::*;
use jagua_rs::entities::instances::instance::Instance;
use jagua_rs::entities::instances::instance_generic::InstanceGeneric;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation as AR;
use jagua_rs::geometry::geo_traits::{Shape, TransformableFrom, Transformable};
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::io::json_instance::*;
use jagua_rs::io::json_solution::*;
use jagua_rs::io::parser::*;
use jagua_rs::util::polygon_simplification::PolySimplConfig as PS;

fn jp(p: &[P], close: bool) -> JsonSimplePoly {
    let mut v: Vec<(f32, f32)> = p.iter().map(|q| (q.0 as f32, q.1 as f32)).collect();
    if close { v.push(v[0]); }
    JsonSimplePoly(v)
}
struct JI { json: JsonInstance, items: Vec<Vec<P>>, bins: Vec<(Vec<P>, Vec<Vec<P>>, Vec<(usize, Vec<P>)>)> }
fn rnd(r: &mut Rng, strip: bool) -> JI {
    let (mut items, mut bins) = (vec![], vec![]);
    let ji = (0..1 + r.us(4)).map(|_| {
        let sz = r.int(3, 12); let mut p = int_poly(r, sz);
        let shape = if r.chance(0.2) { let (w, h) = (r.int(2, 9) as f64, r.int(2, 9) as f64); p = rect_poly((0.0, 0.0, w, h)); JsonShape::Rectangle { width: w as f32, height: h as f32 } }
            else { let t = (r.int(-30, 30) as f64, r.int(-30, 30) as f64); p = shift(&p, t); let c = r.chance(0.5); JsonShape::SimplePolygon(jp(&p, c)) };
        items.push(p);
        let ao = match r.us(5) { 0 => None, 1 => Some(vec![]), 2 => Some(vec![0.0]), 3 => Some(vec![90.0]), _ => Some(vec![0.0, 90.0, 180.0, 270.0]) };
        JsonItem { demand: 1 + r.below(5), allowed_orientations: ao, shape, value: if r.chance(0.5) { Some(r.below(100)) } else { None }, base_quality: if r.chance(0.5) { Some(r.us(11)) } else { None } }
    }).collect();
    let jb = (0..1 + r.us(3)).map(|_| {
        let sz = r.int(20, 40); let t = (r.int(-50, 50) as f64, r.int(-50, 50) as f64);
        let kind = r.us(3);
        let (outer, holes): (Vec<P>, Vec<Vec<P>>) = match kind {
            0 => (rect_poly((0.0, 0.0, sz as f64, r.int(20, 40) as f64)), vec![]),
            1 => (shift(&int_poly(r, sz), t), vec![]),
            _ => { let o = shift(&rect_poly((0.0, 0.0, sz as f64, sz as f64)), t); let n = r.us(3); let hs = (0..n).map(|k| { let q = r.int(3, 6); let h = int_poly(r, q); shift(&h, add(t, (1.0 + 7.0 * k as f64, 2.0))) }).collect(); (o, hs) }
        };
        let c = r.chance(0.5);
        let shape = match kind {
            0 => JsonShape::Rectangle { width: outer[2].0 as f32, height: outer[2].1 as f32 },
            1 => JsonShape::SimplePolygon(jp(&outer, c)),
            _ => JsonShape::Polygon(JsonPoly { outer: jp(&outer, c), inner: holes.iter().map(|h| jp(h, c)).collect() }),
        };
        let b = bbox(&outer);
        let nz = r.us(4);
        let zones: Vec<(usize, Vec<P>)> = (0..nz).map(|_| { let q = r.int(3, 8); let z = int_poly(r, q); (r.us(10), shift(&z, (b.0 + r.int(0, 10) as f64, b.1 + r.int(0, 10) as f64))) }).collect();
        let j = JsonBin { cost: r.below(100), stock: if r.chance(0.7) { Some(1 + r.below(9)) } else { None }, shape, zones: zones.iter().map(|(q, z)| JsonQualityZone { quality: *q, shape: JsonShape::SimplePolygon(jp(z, c)) }).collect() };
        bins.push((outer, holes, zones));
        j
    }).collect();
    let json = JsonInstance { name: "x".into(), items: ji, bins: if strip { None } else { Some(jb) }, strip: if strip { Some(JsonStrip { height: r.int(20, 40) as f32 }) } else { None } };
    JI { json, items, bins }
}
fn inv(t: &Transformation, p: &[P]) -> Vec<P> {
    // undo a rigid motion given by its matrix
    let m = |i: usize, j: usize| t.matrix()[i][j].into_inner() as f64;
    p.iter().map(|q| { let (x, y) = (q.0 - m(0, 2), q.1 - m(1, 2)); (m(0, 0) * x + m(1, 0) * y, m(0, 1) * x + m(1, 1) * y) }).collect()
}
/// same cyclic sequence of vertices, either orientation
fn same(a: &[P], b: &[P], tol: f64) -> bool {
    let n = a.len();
    n == b.len() && (0..n).any(|k| (0..n).all(|i| dist(a[i], b[(i + k) % n]) <= tol) || (0..n).all(|i| dist(a[i], b[(k + n - i) % n]) <= tol))
}
/// a contained in b, up to tol
fn within(a: &[P], b: &[P], tol: f64) -> bool { edges(a).all(|(x, y)| (0..4).all(|k| { let t = k as f64 / 4.0; let q = (x.0 + t * (y.0 - x.0), x.1 + t * (y.1 - x.1)); pip(b, q) != Loc::Out || border_dist(b, q) <= tol })) }
const TOL: f64 = 2e-3;

fn check_parse(r: &mut Rng, simpl: Option<f64>) -> Result<&'static str, String> {
    let strip = r.chance(0.3); let center = r.chance(0.7);
    let w = rnd(r, strip);
    // through the text representation, as a user would
    let txt = serde_json::to_string(&w.json).map_err(|e| e.to_string())?;
    let json: JsonInstance = serde_json::from_str(&txt).map_err(|e| format!("{e} in {txt}"))?;
    let parser = Parser::new(simpl.map_or(PS::Disabled, |t| PS::Enabled { tolerance: t as f32 }), cfg(2, 0), center);
    let inst = parser.parse(&json);
    let ctx = || format!("center {center} simplification {simpl:?} {txt}");
    let ok = |got: &[P], orig: &[P], grow: bool| match simpl { None => same(got, orig, TOL), Some(t) => { let (a, b) = (area(got).abs(), area(orig).abs()); (if grow { within(orig, got, TOL) } else { within(got, orig, TOL) }) && (a - b).abs() <= (t + 1e-3) * b } };
    ensure!(inst.items().len() == w.items.len(), "item count {}", ctx());
    let mut total = 0;
    for (i, (it, qty)) in inst.items().iter().enumerate() {
        let j = &w.json.items[i];
        total += j.demand as usize;
        ensure!(it.id == i && *qty == j.demand as usize && inst.item_qty(i) == *qty, "item {i}: id {} demand {qty} {}", it.id, ctx());
        ensure!(it.base_quality == j.base_quality && it.value == j.value.unwrap_or(0), "item {i}: quality or value {}", ctx());
        let p = pts(&it.shape);
        ensure!(ok(&inv(&it.pretransform, &p), &w.items[i], true), "item {i}: shape {:?} (undone: {:?}) does not represent {:?} {}", p, inv(&it.pretransform, &p), w.items[i], ctx());
        if center { ensure!(dist(centroid(&p), (0.0, 0.0)) <= 0.02, "item {i} not centred: {:?} {}", centroid(&p), ctx()); } else { ensure!(it.pretransform.is_empty(), "item {i} moved although centring is off"); }
        ensure!(it.shape.surrogate.is_some(), "no surrogate");
        let rot_ok = match (&j.allowed_orientations, &it.allowed_rotation) {
            (None, AR::Continuous) => true,
            (Some(v), AR::None) => v.iter().all(|a| *a == 0.0),
            (Some(v), AR::Discrete(d)) => v.len() == d.len() && !v.is_empty() && v.iter().zip(d).all(|(a, b)| ((*a as f64).to_radians() - *b as f64).abs() < 1e-5),
            _ => false,
        };
        ensure!(rot_ok, "item {i}: orientations {:?} parsed as {:?}", j.allowed_orientations, it.allowed_rotation);
    }
    ensure!(inst.total_item_qty() == total, "total demand {}", ctx());
    let exp_area: f64 = inst.items().iter().map(|(it, q)| it.shape.area() as f64 * *q as f64).sum();
    ensure!((inst.item_area() as f64 - exp_area).abs() <= 1e-4 * exp_area, "total item area");
    match &inst {
        Instance::SP(s) => ensure!(strip && s.strip_height == w.json.strip.as_ref().unwrap().height, "strip height"),
        Instance::BP(b) => {
            ensure!(!strip && b.bins.len() == w.bins.len(), "bin count {}", ctx());
            for (i, (bin, stock)) in b.bins.iter().enumerate() {
                let j = &w.json.bins.as_ref().unwrap()[i];
                let (outer, holes, zones) = &w.bins[i];
                ensure!(bin.id == i && *stock as u64 == j.stock.unwrap_or(u64::MAX), "bin {i}: id {} stock {stock} {}", bin.id, ctx());
                let un = |s: &jagua_rs::geometry::primitives::simple_polygon::SimplePolygon| inv(&bin.pretransform, &pts(s));
                ensure!(ok(&un(&bin.outer), outer, false), "bin {i}: outline {:?} does not represent {outer:?} {}", un(&bin.outer), ctx());
                ensure!(bin.holes.len() == holes.len() && bin.holes.iter().zip(holes).all(|(a, b)| ok(&un(a), b, true)), "bin {i}: holes {:?} do not represent {holes:?} {}", bin.holes.iter().map(|h| un(h)).collect::<Vec<_>>(), ctx());
                for q in 0..10 {
                    let e: Vec<&Vec<P>> = zones.iter().filter(|z| z.0 == q).map(|z| &z.1).collect();
                    let g: Vec<Vec<P>> = bin.quality_zones[q].as_ref().map_or(vec![], |z| z.zones.iter().map(|s| un(s)).collect());
                    ensure!(bin.quality_zones[q].as_ref().map_or(true, |z| z.quality == q), "bin {i}: zone stored under the wrong quality");
                    ensure!(g.len() == e.len() && g.iter().zip(&e).all(|(a, b)| ok(a, b, true)), "bin {i}: zones of quality {q} {g:?}, expected {e:?} {}", ctx());
                }
                if center { ensure!(dist(centroid(&pts(&bin.outer)), (0.0, 0.0)) <= 0.02, "bin {i} not centred"); }
                let net = area(&pts(&bin.outer)) - bin.holes.iter().map(|h| area(&pts(h)).abs()).sum::<f64>();
                ensure!((bin.area as f64 - net).abs() <= 1e-3 * net + 0.01, "bin {i}: area {} instead of {net}", bin.area);
                let n_haz = 1 + holes.len() + zones.len();
                ensure!(bin.base_cde.all_hazards().count() == n_haz, "bin {i}: {} hazards instead of {n_haz}", bin.base_cde.all_hazards().count());
            }
        }
    }
    Ok(if strip { "strip" } else { "bins" })
}

fn check_roundtrip(r: &mut Rng) -> Result<&'static str, String> {
    let strip = r.chance(0.4); let center = r.chance(0.7);
    let w = rnd(r, strip);
    let parser = Parser::new(PS::Disabled, cfg(2, 0), center);
    let inst = parser.parse(&w.json);
    let mut prob: Problem = match &inst {
        Instance::SP(s) => SPProblem::new(s.clone(), r.int(20, 60) as f32, cfg(2, 0)).into(),
        Instance::BP(b) => BPProblem::new(b.clone()).into(),
    };
    // fit_strip requires placements without collisions
    let feasible = strip && r.chance(0.5);
    for _ in 0..1 + r.us(8) {
        let i = r.us(inst.items().len());
        if prob.missing_item_qtys()[i] <= 0 { continue; }
        let mut opts: Vec<LayoutIndex> = prob.layout_indices().collect();
        if !strip { opts.extend(prob.template_layout_indices_with_stock()); }
        let li = if strip { STRIP_LAYOUT_IDX } else { if opts.is_empty() { continue; } *r.pick(&opts) };
        let rot = match &inst.item(i).allowed_rotation { AR::None => 0.0, AR::Continuous => r.range(-3.0, 3.0) as f32, AR::Discrete(v) => *r.pick(v) };
        let dt = DTransformation::new(rot, (r.range(-20.0, 20.0) as f32, r.range(-20.0, 20.0) as f32));
        if feasible {
            let t = dt.compose();
            let sh = inst.item(i).shape.transform_clone(&t);
            if prob.layouts()[0].cde().poly_collides(&sh, &[]) { continue; }
        }
        prob.place_item(PlacingOption { layout_idx: li, item_id: i, d_transf: dt });
    }
    if feasible && prob.layouts()[0].placed_items().len() > 0 {
        if let Problem::SP(sp) = &mut prob { sp.fit_strip(); }
    }
    if !strip && prob.layouts().is_empty() { return Ok("empty"); }
    let sol = prob.create_solution(None);
    let js = compose_json_solution(&sol, &inst, std::time::Instant::now());
    let txt = serde_json::to_string(&js).map_err(|e| e.to_string())?;
    let js: JsonSolution = serde_json::from_str(&txt).map_err(|e| format!("{e} in {txt}"))?;
    let ctx = || format!("center {center}, solution {txt}, instance {}", serde_json::to_string(&w.json).unwrap());
    ensure!(js.layouts.len() == sol.layout_snapshots.len(), "layout count {}", ctx());
    for (l, s) in js.layouts.iter().zip(&sol.layout_snapshots) {
        match &l.container {
            JsonContainer::Bin { index } => ensure!(!strip && *index == s.bin.id, "container {}", ctx()),
            JsonContainer::Strip { width, height } => { let b = rb(&s.bin.bbox()); ensure!(strip && (*width as f64 - (b.2 - b.0)).abs() < 1e-3 && *height == w.json.strip.as_ref().unwrap().height, "container {}", ctx()); }
        }
        ensure!(l.placed_items.len() == s.placed_items.len(), "item count {}", ctx());
        ensure!((l.statistics.usage - s.usage).abs() < 1e-5 && (js.usage - sol.usage).abs() < 1e-5, "usage {}", ctx());
        // the written transformation applied to the shape in the instance file gives the placed shape in the file's bin coordinates
        let mut todo: Vec<(usize, Vec<P>)> = s.placed_items.values().map(|p| (p.item_id, inv(&s.bin.pretransform, &pts(&p.shape)))).collect();
        for p in &l.placed_items {
            let t = &p.transformation;
            let abs: Vec<P> = w.items[p.index].iter().map(|q| rt(*q, t.rotation as f64, (t.translation.0 as f64, t.translation.1 as f64))).collect();
            let k = todo.iter().position(|(i, sh)| *i == p.index && same(sh, &abs, 10.0 * TOL));
            ensure!(k.is_some(), "placed item {} at {:?} (shape {abs:?}) is not in the solution: {todo:?} {}", p.index, (t.rotation, t.translation), ctx());
            todo.swap_remove(k.unwrap());
        }
    }
    let (inst2, back) = parser.parse_and_build_solution(&w.json, &js.layouts);
    ensure!(inst2.items().len() == inst.items().len(), "instance");
    ensure!(back.layout_snapshots.len() == sol.layout_snapshots.len() && back.n_items_placed() == sol.n_items_placed(), "rebuilt solution has {} items in {} layouts {}", back.n_items_placed(), back.layout_snapshots.len(), ctx());
    ensure!(back.placed_item_qtys == sol.placed_item_qtys && back.bin_qtys == sol.bin_qtys, "rebuilt quantities {:?} {:?} {}", back.placed_item_qtys, back.bin_qtys, ctx());
    for (a, b) in sol.layout_snapshots.iter().zip(&back.layout_snapshots) {
        ensure!(a.bin.id == b.bin.id, "bin {} rebuilt as {}", a.bin.id, b.bin.id);
        let mut todo: Vec<(usize, Vec<P>)> = a.placed_items.values().map(|p| (p.item_id, inv(&a.bin.pretransform, &pts(&p.shape)))).collect();
        for p in b.placed_items.values() {
            let sh = inv(&b.bin.pretransform, &pts(&p.shape));
            let k = todo.iter().position(|(i, s)| *i == p.item_id && s.iter().zip(&sh).all(|(x, y)| dist(*x, *y) <= 10.0 * TOL));
            ensure!(k.is_some(), "rebuilt item {} at {sh:?} was not in the solution {todo:?} {}", p.item_id, ctx());
            todo.swap_remove(k.unwrap());
        }
        ensure!((a.usage - b.usage).abs() <= 1e-4 * (1.0 + a.usage), "layout usage {} rebuilt as {}", a.usage, b.usage);
    }
    ensure!((sol.usage - back.usage).abs() <= 1e-4 * (1.0 + sol.usage), "usage {} rebuilt as {}", sol.usage, back.usage);
    Ok(if strip { "strip" } else { "bins" })
}

fn main() {
    main_with("C19", vec![
        group("parse", "parsing represents every item, bin, hole, quality zone, demand, stock, orientation, value and strip height of the file, and the recorded pre-transformation maps file coordinates to internal ones", (2500, 50000), |_, r| check_parse(r, None)),
        group("parse-simplified", "with simplification on, items, holes and zones only grow and bins only shrink, within the tolerance", (1500, 30000), |_, r| { let t = *r.pick(&[0.001, 0.01, 0.05]); check_parse(r, Some(t)) }),
        group("solution-round-trip", "writing a solution and reading it back reproduces the same items, bins, positions and usage, and the written transformations are relative to the file's own shapes and bins", (2500, 50000), |_, r| check_roundtrip(r)),
        group("transforms", "converting a placement from internal to absolute and back is the identity, for any pre-transformations", (50000, 500000), |_, r| {
            let mut t = |r: &mut Rng| { let a = r.range(-3.0, 3.0) as f32; let d = (r.range(-30.0, 30.0) as f32, r.range(-30.0, 30.0) as f32); (Transformation::from_dt(&DTransformation::new(a, d)), a as f64, (d.0 as f64, d.1 as f64)) };
            let ((ti, ai, di), (tb, ab, db)) = (t(r), t(r));
            let d = DTransformation::new(r.range(-3.0, 3.0) as f32, (r.range(-30.0, 30.0) as f32, r.range(-30.0, 30.0) as f32));
            let abs = internal_to_absolute_transform(&d, &ti, &tb);
            let back = absolute_to_internal_transform(&abs.decompose(), &ti, &tb);
            let ap = |t: &Transformation, p: P| { let m = |i: usize, j: usize| t.matrix()[i][j].into_inner() as f64; (m(0, 0) * p.0 + m(0, 1) * p.1 + m(0, 2), m(1, 0) * p.0 + m(1, 1) * p.1 + m(1, 2)) };
            for _ in 0..3 {
                let p = (r.range(-20.0, 20.0), r.range(-20.0, 20.0));
                let dd = (d.translation().0 as f64, d.translation().1 as f64);
                let e = rt(p, d.rotation() as f64, dd);
                let g = ap(&back, p);
                ensure!(dist(e, g) <= 5e-3, "{p:?} moved to {g:?} instead of {e:?} after the round trip");
                // original -> item pretransform -> placement = bin pretransform of the absolute position
                let l = rt(rt(p, ai, di), d.rotation() as f64, dd);
                let a = rt(ap(&abs, p), ab, db);
                ensure!(dist(l, a) <= 5e-3, "absolute position of {p:?} corresponds to {a:?} instead of {l:?}");
            }
            Ok("ok")
        }),
    ]);
}
