//! Generators for inputs that satisfy the documented preconditions, and conversions to the library's types.
use crate::geo::*;
use crate::run::Rng;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::layout::Layout;
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::entities::quality_zone::InferiorQualityZone;
use jagua_rs::fsize;
use jagua_rs::geometry::d_transformation::DTransformation;
use jagua_rs::geometry::geo_enums::AllowedRotation;
use jagua_rs::geometry::primitives::aa_rectangle::AARectangle;
use jagua_rs::geometry::primitives::point::Point;
use jagua_rs::geometry::primitives::simple_polygon::SimplePolygon;
use jagua_rs::geometry::transformation::Transformation;
use jagua_rs::util::config::{CDEConfig, SPSurrogateConfig};

pub fn pt(p: P) -> Point { Point(p.0 as fsize, p.1 as fsize) }
pub fn fp(p: Point) -> P { (p.0 as f64, p.1 as f64) }
pub fn sp(p: &[P]) -> SimplePolygon { SimplePolygon::new(p.iter().map(|q| pt(*q)).collect()) }
pub fn pts(s: &SimplePolygon) -> Vec<P> { s.points.iter().map(|q| fp(*q)).collect() }
pub fn rect(b: (f64, f64, f64, f64)) -> AARectangle { AARectangle { x_min: b.0 as fsize, y_min: b.1 as fsize, x_max: b.2 as fsize, y_max: b.3 as fsize } }
pub fn rb(r: &AARectangle) -> (f64, f64, f64, f64) { (r.x_min as f64, r.y_min as f64, r.x_max as f64, r.y_max as f64) }
pub fn shift(p: &[P], t: P) -> Vec<P> { p.iter().map(|q| add(*q, t)).collect() }
pub fn dt0(t: P) -> DTransformation { DTransformation::new(0.0, (t.0 as fsize, t.1 as fsize)) }

pub fn surr(max_poles: usize, n_ff_poles: usize, n_ff_piers: usize) -> SPSurrogateConfig {
    SPSurrogateConfig { pole_coverage_goal: 0.95, max_poles, n_ff_poles, n_ff_piers }
}
pub fn cfg(depth: u8, hpg: usize) -> CDEConfig {
    CDEConfig { quadtree_depth: depth, hpg_n_cells: hpg, item_surrogate_config: surr(3, 2, 0) }
}

/// trace the outline of a set of unit cells; None if it is not one simple outline
fn outline(cells: &[Vec<bool>]) -> Option<Vec<P>> {
    let n = cells.len() as i64;
    let at = |x: i64, y: i64| x >= 0 && y >= 0 && x < n && y < n && cells[x as usize][y as usize];
    let mut next = std::collections::BTreeMap::<(i64, i64), (i64, i64)>::new();
    let mut cnt = 0;
    for x in 0..n { for y in 0..n {
        if !at(x, y) { continue; }
        let mut e = |a: (i64, i64), b: (i64, i64)| { cnt += 1; next.insert(a, b) };
        if !at(x, y - 1) { e((x, y), (x + 1, y)); }
        if !at(x + 1, y) { e((x + 1, y), (x + 1, y + 1)); }
        if !at(x, y + 1) { e((x + 1, y + 1), (x, y + 1)); }
        if !at(x - 1, y) { e((x, y + 1), (x, y)); }
    } }
    if next.len() != cnt || cnt == 0 { return None; }
    let start = *next.keys().next().unwrap();
    let (mut cur, mut v) = (start, vec![]);
    loop { v.push((cur.0 as f64, cur.1 as f64)); cur = next[&cur]; if cur == start { break; } if v.len() > cnt { return None; } }
    if v.len() != cnt { return None; }
    let k = v.len();
    Some((0..k).filter(|&i| cross(v[(i + k - 1) % k], v[i], v[(i + 1) % k]) != 0.0).map(|i| v[i]).collect())
}

/// a simple polygon with integer coordinates roughly inside [0,size]^2, without collinear consecutive vertices, fat enough for a pole
pub fn int_poly(r: &mut Rng, size: i64) -> Vec<P> {
    loop {
        let kind = r.us(6);
        let p: Vec<P> = match kind {
            0 => { let (w, h) = (r.int(1, size) as f64, r.int(1, size) as f64); rect_poly((0.0, 0.0, w, h)) }
            1 => (0..3).map(|_| (r.int(0, size) as f64, r.int(0, size) as f64)).collect(),
            2 | 3 => {
                let k = r.int(4, 12) as usize;
                let c = (size as f64 / 2.0, size as f64 / 2.0);
                let mut v: Vec<P> = (0..k).map(|_| (r.int(0, size) as f64, r.int(0, size) as f64)).collect();
                v.sort_by(|a, b| (a.1 - c.1).atan2(a.0 - c.0).partial_cmp(&(b.1 - c.1).atan2(b.0 - c.0)).unwrap());
                v.dedup();
                v
            }
            4 => {
                let n = r.int(2, 4) as usize;
                let mut c = vec![vec![false; n]; n];
                for x in 0..n { for y in 0..n { c[x][y] = r.chance(0.65); } }
                let s = (size as f64 / n as f64).floor().max(1.0);
                match outline(&c) { Some(v) => v.into_iter().map(|q| (q.0 * s, q.1 * s)).collect(), None => continue }
            }
            _ => {
                // C / U shapes: deep concavity
                let s = size.max(6) as f64; let t = (s / 6.0).floor().max(1.0);
                let mut v = vec![(0.0, 0.0), (s, 0.0), (s, t), (t, t), (t, s - t), (s, s - t), (s, s), (0.0, s)];
                if r.chance(0.5) { v = v.into_iter().map(|q: P| (q.1, s - q.0)).collect(); }
                if r.chance(0.5) { v = v.into_iter().map(|q: P| (s - q.0, q.1)).collect(); }
                v
            }
        };
        if !is_simple(&p) || has_collinear(&p) { continue; }
        if inradius_lb(&p) < 0.05 * diameter(&p) { continue; }
        let mut p = p;
        if r.chance(0.3) { p.reverse(); }
        let k = r.us(p.len()); p.rotate_left(k);
        return p;
    }
}
/// the same with random real coordinates
pub fn real_poly(r: &mut Rng, size: f64) -> Vec<P> {
    let k = r.int(3, 10) as usize;
    loop {
        let c = (size / 2.0, size / 2.0);
        let mut v: Vec<P> = (0..k).map(|_| (r.range(0.0, size) as f32 as f64, r.range(0.0, size) as f32 as f64)).collect();
        v.sort_by(|a, b| (a.1 - c.1).atan2(a.0 - c.0).partial_cmp(&(b.1 - c.1).atan2(b.0 - c.0)).unwrap());
        if !is_simple(&v) || inradius_lb(&v) < 0.06 * diameter(&v) { continue; }
        return v;
    }
}
pub fn item(id: usize, p: &[P], q: Option<usize>, s: SPSurrogateConfig) -> Item {
    Item::new(id, sp(p), AllowedRotation::None, q, 1 + id as u64, Transformation::empty(), s)
}

/// a bin with known static hazards
pub struct BinW { pub bin: Bin, pub outer: Vec<P>, pub statics: Vec<(HazardEntity, Vec<P>)> }
pub fn bin_w(id: usize, outer: Vec<P>, holes: Vec<Vec<P>>, zones: Vec<(usize, Vec<Vec<P>>)>, c: CDEConfig) -> BinW {
    let mut statics = vec![(HazardEntity::BinExterior, outer.clone())];
    for (i, h) in holes.iter().enumerate() { statics.push((HazardEntity::BinHole { id: i }, h.clone())); }
    for (q, zs) in &zones { for (i, z) in zs.iter().enumerate() { statics.push((HazardEntity::InferiorQualityZone { quality: *q, id: i }, z.clone())); } }
    let bin = Bin::new(id, sp(&outer), 10 * (id as u64 + 1), Transformation::empty(), holes.iter().map(|h| sp(h)).collect(),
        zones.iter().map(|(q, zs)| InferiorQualityZone::new(*q, zs.iter().map(|z| sp(z)).collect())).collect(), c);
    BinW { bin, outer, statics }
}
pub fn rand_bin(r: &mut Rng, id: usize, size: i64, c: CDEConfig) -> BinW {
    let outer = if r.chance(0.4) { let (w, h) = (r.int(size / 2, size), r.int(size / 2, size)); rect_poly((0.0, 0.0, w as f64, h as f64)) } else {
        loop { let p = int_poly(r, size); if area(&p).abs() > (size * size) as f64 * 0.3 { break p; } } };
    let b = bbox(&outer);
    let inner = |r: &mut Rng| -> Vec<P> {
        let sz = r.int(2, size / 3);
        let p = int_poly(r, sz);
        let pb = bbox(&p);
        shift(&p, (r.int(b.0 as i64, (b.2 - pb.2).max(b.0) as i64) as f64, r.int(b.1 as i64, (b.3 - pb.3).max(b.1) as i64) as f64))
    };
    let nh = r.us(3); let nz = r.us(3);
    let holes = (0..nh).map(|_| inner(r)).collect();
    let mut zones = vec![];
    let mut qs: Vec<usize> = (0..10).collect();
    for _ in 0..nz { let i = r.us(qs.len()); let q = qs.remove(i); let k = 1 + r.us(2); zones.push((q, (0..k).map(|_| inner(r)).collect())); }
    bin_w(id, outer, holes, zones, c)
}

/// layout + what must be in it
pub struct World { pub bw: BinW, pub layout: Layout, pub items: Vec<(Item, Vec<P>)>, pub placed: Vec<(PItemKey, HazardEntity, Vec<P>)>, pub removed: Vec<(usize, P)> }
impl World {
    pub fn new(r: &mut Rng, size: i64, depth: u8, hpg: usize) -> World {
        let bw = rand_bin(r, 0, size, cfg(depth, hpg));
        let layout = Layout::new(7, bw.bin.clone());
        let items = (0..4).map(|i| { let sz = r.int(3, size / 2); let p = int_poly(r, sz); let q = if r.chance(0.5) { Some(r.us(11)) } else { None }; (item(i, &p, q, surr(3, 2, 0)), p) }).collect();
        World { bw, layout, items, placed: vec![], removed: vec![] }
    }
    pub fn rand_pos(&self, r: &mut Rng) -> P {
        let b = bbox(&self.bw.outer);
        (r.int(b.0 as i64 - 2, b.2 as i64) as f64, r.int(b.1 as i64 - 2, b.3 as i64) as f64)
    }
    /// all hazards that should be known to the engine
    pub fn hazards(&self) -> Vec<(HazardEntity, Vec<P>)> {
        self.bw.statics.iter().cloned().chain(self.placed.iter().map(|(_, e, p)| (*e, p.clone()))).collect()
    }
    pub fn place(&mut self, i: usize, t: P) -> bool {
        let d = dt0(t);
        let e = HazardEntity::PlacedItem { id: i, dt: d };
        if self.placed.iter().any(|x| x.1 == e) { return false; }
        if std::env::var_os("CX_TRACE").is_some() { eprintln!("place {i} {:?}\n{}", shift(&self.items[i].1, t), self.describe()); }
        let k = self.layout.place_item(&self.items[i].0, d);
        self.placed.push((k, e, shift(&self.items[i].1, t)));
        true
    }
    pub fn remove(&mut self, j: usize, commit: bool) {
        let (k, e, _) = self.placed.remove(j);
        self.layout.remove_item(k, commit);
        if let HazardEntity::PlacedItem { id, dt } = e { self.removed.push((id, (dt.translation().0 as f64, dt.translation().1 as f64))); }
    }
    /// does a placement respect the bin's own universal hazards (exterior and holes)? (the proximity grid's documented domain: feasible layouts)
    pub fn fits(&self, i: usize, t: P) -> bool {
        let q = shift(&self.items[i].1, t);
        !self.bw.statics.iter().any(|(e, s)| !matches!(e, HazardEntity::InferiorQualityZone { .. }) && haz_hits_poly(e, s, &q))
    }
    /// one random step of the editing history, with items that respect the bin's own hazards
    pub fn step_fit(&mut self, r: &mut Rng) {
        match r.us(10) {
            0..=4 => { for _ in 0..6 { let t = self.rand_pos(r); let i = r.us(self.items.len()); if self.fits(i, t) { self.place(i, t); break; } } }
            5 | 6 if !self.placed.is_empty() => { let j = r.us(self.placed.len()); self.remove(j, true) }
            7 if !self.placed.is_empty() => { let j = r.us(self.placed.len()); self.remove(j, false) }
            8 if !self.removed.is_empty() => { let k = r.us(self.removed.len()); let (i, t) = self.removed.swap_remove(k); self.place(i, t); }
            _ => self.layout.flush_changes(),
        }
    }
    /// one random step of the editing history
    pub fn step(&mut self, r: &mut Rng) {
        match r.us(10) {
            0..=4 => { let t = self.rand_pos(r); let i = r.us(self.items.len()); self.place(i, t); }
            5 | 6 if !self.placed.is_empty() => { let j = r.us(self.placed.len()); self.remove(j, true) }
            7 if !self.placed.is_empty() => { let j = r.us(self.placed.len()); self.remove(j, false) }
            8 if !self.removed.is_empty() => { let k = r.us(self.removed.len()); let (i, t) = self.removed.swap_remove(k); self.place(i, t); }
            _ => self.layout.flush_changes(),
        }
    }
    pub fn describe(&self) -> String { format!("static hazards {:?}\nplaced {:?}", self.bw.statics, self.placed.iter().map(|x| (&x.1, &x.2)).collect::<Vec<_>>()) }
}
/// does the region of query polygon `q` collide with hazard (e, shape)? exact for integer inputs
pub fn haz_hits_poly(e: &HazardEntity, shape: &[P], q: &[P]) -> bool {
    match e { HazardEntity::BinExterior => !strictly_inside(q, shape), _ => regions_touch(q, shape) }
}
pub fn irr_subset(r: &mut Rng, hz: &[(HazardEntity, Vec<P>)]) -> Vec<HazardEntity> {
    if r.chance(0.35) { return vec![]; }
    let p = r.f();
    hz.iter().filter(|_| r.chance(p)).map(|h| h.0).collect()
}
pub fn inside_bbox(inner: (f64, f64, f64, f64), outer: (f64, f64, f64, f64)) -> bool { inner.0 >= outer.0 && inner.1 >= outer.1 && inner.2 <= outer.2 && inner.3 <= outer.3 }
