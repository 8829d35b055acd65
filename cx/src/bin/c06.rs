use cx::prob::*;
use cx::*;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::problem_generic::ProblemGeneric;
use jagua_rs::entities::solution::Solution;

fn check_sol(w: &PW, s: &Solution) -> Result<(), String> {
    ensure!(s.layout_snapshots.len() == w.st.led.len(), "solution has {} layouts, problem {}", s.layout_snapshots.len(), w.st.led.len());
    for l in &s.layout_snapshots {
        let Some((bid, es)) = w.st.led.get(&l.id) else { return Err(format!("solution has unknown layout {}", l.id)) };
        ensure!(l.bin.id == *bid && l.placed_items.len() == es.len(), "snapshot of layout {} has bin {} and {} items, expected bin {bid} and {}", l.id, l.bin.id, l.placed_items.len(), es.len());
        for (k, i, d) in es { ensure!(l.placed_items.get(*k).map(|p| (p.item_id, p.d_transf)) == Some((*i, *d)), "snapshot of layout {} misses {i} {d:?}", l.id); }
        let ia: f64 = es.iter().map(|e| area(&w.items[e.1].2).abs()).sum();
        ensure!((l.usage as f64 - ia / l.bin.area as f64).abs() < 1e-4 * (1.0 + l.usage as f64), "snapshot usage {} of layout {}", l.usage, l.id);
    }
    ensure!(s.placed_item_qtys == (0..w.items.len()).map(|i| w.placed_of(i)).collect::<Vec<_>>(), "solution's placed quantities {:?}", s.placed_item_qtys);
    ensure!(s.target_item_qtys == w.items.iter().map(|i| i.1).collect::<Vec<_>>(), "solution's target quantities {:?}", s.target_item_qtys);
    if !w.is_sp() { ensure!(s.bin_qtys == w.st.stock, "solution's stock {:?} expected {:?}", s.bin_qtys, w.st.stock); }
    ensure!(s.n_items_placed() == w.st.led.values().map(|l| l.1.len()).sum::<usize>(), "n_items_placed {}", s.n_items_placed());
    let compl = (0..w.items.len()).all(|i| w.placed_of(i) >= w.items[i].1);
    ensure!(s.is_complete(w.prob.instance()) == compl, "is_complete {} expected {compl}", s.is_complete(w.prob.instance()));
    Ok(())
}

fn history(r: &mut Rng, mut w: PW) -> Result<&'static str, String> {
    let mut sols: Vec<(Solution, St)> = vec![];
    // the solution with respect to which unchanged layouts may be reused
    let mut reference: Option<usize> = None;
    let mut restores = 0;
    let n = 12 + r.us(28);
    for step in 0..n {
        let when = format!("step {step}");
        match r.us(10) {
            0 | 1 => {
                let old = match reference { Some(i) if r.chance(0.6) => Some(i), _ => None };
                let s = { let o = old.map(|i| sols[i].0.clone()); w.prob.create_solution(o.as_ref()) };
                ensure!(sols.iter().all(|x| x.0.id != s.id), "solution id {} reused", s.id);
                check_sol(&w, &s).map_err(|e| format!("create_solution({}) at {when}: {e}\n{:?}", if old.is_some() { "incremental" } else { "full" }, w.st.led))?;
                sols.push((s, w.st.clone()));
                reference = Some(sols.len() - 1);
                w.check(&format!("{when}: after create_solution"))?;
            }
            2 | 3 if !sols.is_empty() => {
                let i = if r.chance(0.5) { reference.unwrap() } else { r.us(sols.len()) };
                let s = sols[i].0.clone();
                w.prob.restore_to_solution(&s);
                w.st = sols[i].1.clone();
                reference = Some(i);
                restores += 1;
                w.check(&format!("{when}: after restore_to_solution of solution {}", s.id))?;
                // the restored problem collides like a freshly built one
                for l in w.prob.layouts() {
                    let mut fresh = jagua_rs::entities::layout::Layout::new(l.id(), l.bin.clone());
                    for pi in l.placed_items().values() { fresh.place_item(&w.items[pi.item_id].0, pi.d_transf); }
                    for _ in 0..4 {
                        let sz = r.int(1, 9); let q = { let p = int_poly(r, sz); let t = (r.int(-2, 20) as f64, r.int(-2, 20) as f64); shift(&p, t) };
                        let s = sp(&q);
                        ensure!(l.cde().poly_collides(&s, &[]) == fresh.cde().poly_collides(&s, &[]), "restored layout {} and fresh layout disagree on {q:?} at {when}", l.id());
                    }
                }
            }
            4 if w.is_sp() && r.chance(0.3) => {
                // only widening: every item that is strictly inside stays
                let Problem::SP(p) = &mut w.prob else { unreachable!() };
                let nw = p.strip_width() + r.int(1, 6) as f32;
                p.modify_strip_in_back(nw);
                let id = p.layout.id();
                let strip = rb(&p.layout.bin.bbox());
                let es = p.layout.placed_items().iter().map(|(k, pi)| (k, pi.item_id, pi.d_transf)).collect();
                w.st.led.clear(); w.st.led.insert(id, (0, es)); w.st.strip = Some(strip);
            }
            _ => { w.step(r)?; }
        }
    }
    w.check("end")?;
    Ok(if restores > 1 { "restored" } else { "few-restores" })
}

fn main() {
    main_with("C06", vec![
        group("bin-packing", "restoring any earlier solution (most recent one or not, full or incremental) brings the whole problem back to that moment", (3000, 60000), |_, r| { let h = if r.chance(0.2) { 4 } else { 0 }; let w = PW::bp(r, h, false); history(r, w) }),
        group("strip-packing", "the same for strip packing, including after the strip was resized", (2000, 40000), |_, r| { let h = if r.chance(0.2) { 4 } else { 0 }; let w = PW::sp(r, h, false); history(r, w) }),
        group("more-than-demanded", "the round trip also holds when more copies than demanded were placed (missing quantities become negative)", (1500, 30000), |_, r| { let w = if r.chance(0.5) { PW::bp(r, 0, true) } else { PW::sp(r, 0, true) }; history(r, w) }),
    ]);
}
