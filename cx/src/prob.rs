//! Random problem instances and an independent ledger of what should be in them.
use crate::*;
use jagua_rs::collision_detection::hazard::HazardEntity;
use jagua_rs::entities::bin::Bin;
use jagua_rs::entities::instances::bin_packing::BPInstance;
use jagua_rs::entities::instances::strip_packing::SPInstance;
use jagua_rs::entities::item::Item;
use jagua_rs::entities::placed_item::PItemKey;
use jagua_rs::entities::placing_option::PlacingOption;
use jagua_rs::entities::problems::bin_packing::BPProblem;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::{LayoutIndex, ProblemGeneric, STRIP_LAYOUT_IDX};
use jagua_rs::entities::problems::strip_packing::SPProblem;
use jagua_rs::geometry::d_transformation::DTransformation;
use std::collections::BTreeMap;

pub type Ledger = BTreeMap<usize, (usize, Vec<(PItemKey, usize, DTransformation)>)>; // layout id -> (bin id, items)
#[derive(Clone)]
pub struct St { pub led: Ledger, pub stock: Vec<usize>, pub strip: Option<(f64, f64, f64, f64)> }

pub struct PW { pub prob: Problem, pub bins: Vec<Bin>, pub items: Vec<(Item, usize, Vec<P>)>, pub stock0: Vec<usize>, pub st: St, pub ids_seen: Vec<usize>, pub size: i64, pub overplace: bool }

fn key(e: &(PItemKey, usize, DTransformation)) -> String { format!("{:?} {} {:?}", e.0, e.1, e.2) }

impl PW {
    pub fn items(r: &mut Rng, n: usize) -> Vec<(Item, usize, Vec<P>)> {
        (0..n).map(|i| { let sz = r.int(3, 9); let p = int_poly(r, sz); (item(i, &p, None, surr(2, 1, 0)), 1 + r.us(4), p) }).collect()
    }
    pub fn bp(r: &mut Rng, hpg: usize, overplace: bool) -> PW {
        let items = Self::items(r, 3);
        let nb = 1 + r.us(3);
        let bw: Vec<BinW> = (0..nb).map(|i| rand_bin(r, i, 20, cfg(3, hpg))).collect();
        let stock0: Vec<usize> = (0..nb).map(|_| 1 + r.us(4)).collect();
        let bins: Vec<Bin> = bw.iter().map(|b| b.bin.clone()).collect();
        let inst = BPInstance::new(items.iter().map(|i| (i.0.clone(), i.1)).collect(), bins.iter().cloned().zip(stock0.iter().copied()).collect());
        PW { prob: Problem::BP(BPProblem::new(inst)), bins, items, stock0: stock0.clone(), st: St { led: BTreeMap::new(), stock: stock0, strip: None }, ids_seen: vec![], size: 20, overplace }
    }
    pub fn sp(r: &mut Rng, hpg: usize, overplace: bool) -> PW {
        let items = Self::items(r, 3);
        let h = r.int(12, 24) as f64; let w = r.int(12, 40) as f64;
        let inst = SPInstance::new(items.iter().map(|i| (i.0.clone(), i.1)).collect(), h as f32);
        let p = SPProblem::new(inst, w as f32, cfg(3, hpg));
        let id = p.layout.id();
        let mut led = BTreeMap::new(); led.insert(id, (0, vec![]));
        PW { prob: Problem::SP(p), bins: vec![], items, stock0: vec![], st: St { led, stock: vec![], strip: Some((0.0, 0.0, w, h)) }, ids_seen: vec![], size: 20, overplace }
    }
    pub fn is_sp(&self) -> bool { matches!(self.prob, Problem::SP(_)) }
    pub fn placed_of(&self, i: usize) -> usize { self.st.led.values().flat_map(|l| &l.1).filter(|e| e.1 == i).count() }
    fn rand_dt(&self, r: &mut Rng) -> DTransformation {
        let rot = *r.pick(&[0.0f32, 0.0, std::f32::consts::FRAC_PI_2, 1.25]);
        DTransformation::new(rot, (r.int(-2, self.size) as f32, r.int(-2, self.size) as f32))
    }
    pub fn place(&mut self, r: &mut Rng) -> Result<&'static str, String> {
        let i = r.us(self.items.len());
        if !self.overplace && self.placed_of(i) >= self.items[i].1 { return Ok("skip"); }
        let mut opts: Vec<LayoutIndex> = self.prob.layout_indices().collect();
        opts.extend(self.prob.template_layout_indices_with_stock());
        if opts.is_empty() { return Ok("skip"); }
        let li = *r.pick(&opts);
        let dt = self.rand_dt(r);
        let exp_id = match li { LayoutIndex::Real(k) => Some(self.prob.layouts()[k].id()), LayoutIndex::Template(_) => None };
        if let Some(id) = exp_id { if self.st.led[&id].1.iter().any(|e| e.1 == i && e.2 == dt) { return Ok("skip"); } }
        let n0 = self.prob.layouts().len();
        let tb = if let LayoutIndex::Template(k) = li { Some(self.prob.template_layouts()[k].bin.id) } else { None };
        let (got_li, k) = self.prob.place_item(PlacingOption { layout_idx: li, item_id: i, d_transf: dt });
        let LayoutIndex::Real(pos) = got_li else { return Err("place_item returned a template index".into()); };
        ensure!(pos < self.prob.layouts().len(), "place_item returned index {pos} of {} layouts", self.prob.layouts().len());
        let id = self.prob.layouts()[pos].id();
        match exp_id {
            Some(e) => ensure!(e == id && self.prob.layouts().len() == n0, "item placed in layout {id} instead of {e}"),
            None => {
                ensure!(self.prob.layouts().len() == n0 + 1, "placing in a template did not open exactly one layout");
                ensure!(!self.ids_seen.contains(&id) && !self.st.led.contains_key(&id), "layout id {id} reused");
                ensure!(self.prob.layouts()[pos].bin.id == tb.unwrap(), "wrong bin opened");
                self.ids_seen.push(id);
                self.st.led.insert(id, (tb.unwrap(), vec![]));
                self.st.stock[tb.unwrap()] -= 1;
            }
        }
        self.st.led.get_mut(&id).unwrap().1.push((k, i, dt));
        Ok("place")
    }
    pub fn remove(&mut self, r: &mut Rng) -> Result<&'static str, String> {
        let n = self.prob.layouts().len();
        if n == 0 { return Ok("skip"); }
        let pos = r.us(n);
        let id = self.prob.layouts()[pos].id();
        let es = self.st.led[&id].1.clone();
        if es.is_empty() { return Ok("skip"); }
        let j = r.us(es.len());
        let commit = r.chance(0.5);
        let opt = self.prob.remove_item(LayoutIndex::Real(pos), es[j].0, commit);
        ensure!(opt.item_id == es[j].1 && opt.d_transf == es[j].2 && opt.layout_idx == LayoutIndex::Real(pos), "remove_item returned {opt:?} for {:?}", es[j]);
        let l = self.st.led.get_mut(&id).unwrap();
        l.1.remove(j);
        if l.1.is_empty() && !self.is_sp() { let b = self.st.led.remove(&id).unwrap().0; self.st.stock[b] += 1; }
        Ok("remove")
    }
    pub fn drop_layout(&mut self, r: &mut Rng) -> Result<&'static str, String> {
        let n = self.prob.layouts().len();
        let Problem::BP(bp) = &mut self.prob else { return Ok("skip") };
        if n == 0 { return Ok("skip"); }
        let pos = r.us(n);
        let id = bp.layouts[pos].id();
        bp.remove_layout(LayoutIndex::Real(pos));
        let b = self.st.led.remove(&id).unwrap().0; self.st.stock[b] += 1;
        Ok("drop")
    }
    pub fn step(&mut self, r: &mut Rng) -> Result<&'static str, String> {
        match r.us(12) { 0..=6 => self.place(r), 7..=9 => self.remove(r), 10 => self.drop_layout(r), _ => { self.prob.flush_changes(); Ok("flush") } }
    }
    /// the problem is exactly what the ledger says
    pub fn check(&self, when: &str) -> Result<(), String> {
        let p = &self.prob;
        let ctx = || format!("({when}) ledger {:?}", self.st.led);
        let ids: Vec<usize> = p.layouts().iter().map(|l| l.id()).collect();
        ensure!(ids.len() == self.st.led.len() && ids.iter().all(|i| self.st.led.contains_key(i)), "layouts {ids:?} {}", ctx());
        for l in p.layouts() {
            let (bid, es) = &self.st.led[&l.id()];
            ensure!(l.bin.id == *bid, "layout {} has bin {} {}", l.id(), l.bin.id, ctx());
            let mut a: Vec<String> = l.placed_items().iter().map(|(k, pi)| key(&(k, pi.item_id, pi.d_transf))).collect();
            let mut b: Vec<String> = es.iter().map(key).collect();
            a.sort(); b.sort();
            ensure!(a == b, "layout {} holds {a:?} {}", l.id(), ctx());
            let mut a: Vec<String> = l.cde().dynamic_hazards().iter().map(|h| format!("{:?}", h.entity)).collect();
            let mut b: Vec<String> = es.iter().map(|e| format!("{:?}", HazardEntity::PlacedItem { id: e.1, dt: e.2 })).collect();
            a.sort(); b.sort();
            ensure!(a == b, "collision engine of layout {} knows {a:?} {}", l.id(), ctx());
            let ia: f64 = es.iter().map(|e| area(&self.items[e.1].2).abs()).sum();
            let exp = ia / l.bin.area as f64;
            ensure!((l.usage() as f64 - exp).abs() < 1e-4 * (1.0 + exp), "usage of layout {}: {} expected {exp} {}", l.id(), l.usage(), ctx());
            // the placed shape is the item's shape under the recorded transformation
            for (k, i, d) in es {
                let s = pts(&l.placed_items()[*k].shape);
                let want: Vec<P> = pts(&self.items[*i].0.shape).iter().map(|q| rt(*q, d.rotation() as f64, (d.translation().0 as f64, d.translation().1 as f64))).collect();
                ensure!(s.len() == want.len() && s.iter().zip(&want).all(|(a, b)| dist(*a, *b) < 1e-3), "placed shape {s:?} expected {want:?} {}", ctx());
            }
        }
        for (i, (_, dem, _)) in self.items.iter().enumerate() {
            let n = self.placed_of(i);
            ensure!(p.missing_item_qtys()[i] == *dem as isize - n as isize, "missing quantity of item {i} is {}, demand {dem} placed {n} {}", p.missing_item_qtys()[i], ctx());
        }
        ensure!(p.placed_item_qtys().collect::<Vec<_>>() == (0..self.items.len()).map(|i| self.placed_of(i)).collect::<Vec<_>>(), "placed_item_qtys {:?} {}", p.placed_item_qtys().collect::<Vec<_>>(), ctx());
        if let Some(s) = self.st.strip {
            let b = rb(&p.layouts()[0].bin.bbox());
            ensure!((b.0 - s.0).abs() + (b.1 - s.1).abs() + (b.2 - s.2).abs() + (b.3 - s.3).abs() < 1e-3, "strip is {b:?}, expected {s:?} {}", ctx());
        } else {
            ensure!(p.bin_qtys() == &self.st.stock[..], "remaining stock {:?}, expected {:?} {}", p.bin_qtys(), self.st.stock, ctx());
            for (b, s0) in self.stock0.iter().enumerate() { ensure!(p.bin_qtys()[b] + p.layouts().iter().filter(|l| l.bin.id == b).count() == *s0, "stock of bin {b} not conserved {}", ctx()); }
            let cost: u64 = p.layouts().iter().map(|l| self.bins[l.bin.id].value).sum();
            ensure!(p.used_bin_cost() == cost, "used_bin_cost {} expected {cost} {}", p.used_bin_cost(), ctx());
            let t: Vec<usize> = p.template_layout_indices_with_stock().map(|l| { let LayoutIndex::Template(i) = l else { panic!() }; p.template_layouts()[i].bin.id }).collect();
            let e: Vec<usize> = (0..self.stock0.len()).filter(|b| self.st.stock[*b] > 0).collect();
            ensure!(t == e, "templates with stock {t:?} expected {e:?} {}", ctx());
            ensure!(p.template_layouts().iter().all(|l| l.is_empty()), "a template layout is not empty {}", ctx());
        }
        Ok(())
    }
    pub fn check_usage(&mut self) -> Result<(), String> {
        if self.prob.layouts().is_empty() { return Ok(()); }
        let (mut ta, mut ti) = (0.0f64, 0.0f64);
        for l in self.prob.layouts() { ta += l.bin.area as f64; ti += self.st.led[&l.id()].1.iter().map(|e| area(&self.items[e.1].2).abs()).sum::<f64>(); }
        let u = self.prob.usage() as f64;
        ensure!((u - ti / ta).abs() < 1e-4 * (1.0 + u), "usage {u} expected {}", ti / ta);
        Ok(())
    }
}
pub fn strip_idx() -> LayoutIndex { STRIP_LAYOUT_IDX }
