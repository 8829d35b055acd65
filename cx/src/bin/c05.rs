use cx::*;
use jagua_rs::collision_detection::hazard::HazardEntity as HE;
use jagua_rs::entities::layout::{Layout, LayoutSnapshot};
use jagua_rs::geometry::primitives::circle::Circle;
use jagua_rs::geometry::primitives::edge::Edge;
use tribool::Tribool;

fn t3(t: Tribool) -> u8 { match t { Tribool::True => 0, Tribool::False => 1, Tribool::Indeterminate => 2 } }
fn sorted(mut v: Vec<HE>) -> Vec<String> { let mut s: Vec<String> = v.drain(..).map(|e| format!("{e:?}")).collect(); s.sort(); s }

/// the layout under test answers every query like a layout built from scratch with the same items
fn same_as_fresh(r: &mut Rng, w: &World, n: usize, when: &str) -> Result<(), String> {
    let mut fresh = Layout::new(7, w.bw.bin.clone());
    for (_, e, _) in &w.placed { if let HE::PlacedItem { id, dt } = e { fresh.place_item(&w.items[*id].0, *dt); } }
    let (a, b) = (w.layout.cde(), fresh.cde());
    let ctx = || format!("({when})\n{}", w.describe());
    ensure!(sorted(a.dynamic_hazards().iter().map(|h| h.entity).collect()) == sorted(w.placed.iter().map(|p| p.1).collect()), "registered dynamic hazards {:?} {}", a.dynamic_hazards().iter().map(|h| h.entity).collect::<Vec<_>>(), ctx());
    ensure!(a.dynamic_hazards().iter().all(|h| h.active) && a.static_hazards().len() == w.bw.statics.len(), "static hazards or activity changed {}", ctx());
    ensure!(w.layout.placed_items().len() == w.placed.len(), "placed items {}", ctx());
    for (k, e, _) in &w.placed {
        let pi = w.layout.placed_items().get(*k);
        ensure!(pi.map(|p| HE::from(p)) == Some(*e), "item key does not lead to {e:?} {}", ctx());
        ensure!(w.layout.hazard_to_p_item_key(e) == Some(*k), "hazard_to_p_item_key of {e:?} {}", ctx());
    }
    let hz = w.hazards();
    for _ in 0..n {
        let irr = irr_subset(r, &hz);
        let sz = r.int(1, 12);
        let q = { let p = int_poly(r, sz); shift(&p, w.rand_pos(r)) };
        let s = sp(&q);
        let (x, y) = (a.poly_collides(&s, &irr), b.poly_collides(&s, &irr));
        ensure!(x == y, "poly_collides {x}, fresh layout {y}; query {q:?} irrelevant {irr:?} {}", ctx());
        let (mut x, mut y) = (vec![], vec![]);
        a.collect_poly_collisions(&s, &irr, &mut x); b.collect_poly_collisions(&s, &irr, &mut y);
        ensure!(sorted(x.clone()) == sorted(y.clone()), "collected {x:?}, fresh layout {y:?}; query {q:?} irrelevant {irr:?} {}", ctx());
        let p = { let a = w.rand_pos(r); (a.0 + 0.5, a.1 + 0.25) };
        let e = r.pick(&hz).0;
        let (x, y) = (a.point_definitely_collides_with(&pt(p), e), b.point_definitely_collides_with(&pt(p), e));
        ensure!(t3(x) == t3(y), "point_definitely_collides_with {x:?}, fresh {y:?}; {p:?} {e:?} {}", ctx());
        let p2 = add(p, (r.int(1, 6) as f64, r.int(-6, 6) as f64));
        let ed = Edge::new(pt(p), pt(p2));
        let (x, y) = (a.edge_definitely_collides(&ed, &irr), b.edge_definitely_collides(&ed, &irr));
        ensure!(t3(x) == t3(y), "edge_definitely_collides {x:?}, fresh {y:?}; {ed:?} irrelevant {irr:?} {}", ctx());
        let c = Circle::new(pt(p), r.int(1, 12) as f32 / 4.0);
        let (x, y) = (a.circle_definitely_collides(&c, &irr), b.circle_definitely_collides(&c, &irr));
        ensure!(t3(x) == t3(y), "circle_definitely_collides {x:?}, fresh {y:?}; {c:?} irrelevant {irr:?} {}", ctx());
        let (mut x, mut y) = (vec![], vec![]);
        a.hazards_within(&c, &irr, &mut x); b.hazards_within(&c, &irr, &mut y);
        ensure!(sorted(x.clone()) == sorted(y.clone()), "hazards_within {x:?}, fresh {y:?}; {c:?} irrelevant {irr:?} {}", ctx());
        // removed items leave no trace
        for (id, t) in w.removed.iter().take(3) {
            let e = HE::PlacedItem { id: *id, dt: dt0(*t) };
            if w.placed.iter().any(|p| p.1 == e) { continue; }
            ensure!(!matches!(a.point_definitely_collides_with(&pt(p), e), Tribool::True), "removed item {e:?} still hit at {p:?} {}", ctx());
        }
    }
    let (u, v) = (w.layout.usage(), fresh.usage());
    ensure!((u - v).abs() <= 1e-5 * (1.0 + v.abs()), "usage {u}, fresh layout {v} {}", ctx());
    Ok(())
}

fn main() {
    main_with("C05", vec![
        group("edit-history", "after any sequence of placements and (immediate or deferred) removals, every query answers as on a layout built from scratch with the remaining items", (1200, 25000), |_, r| {
            let depth = r.us(7) as u8;
            let hpg = if r.chance(0.3) { 40 } else { 0 };
            let mut w = World::new(r, 22, depth, hpg);
            let n = 4 + r.us(18);
            for i in 0..n { if hpg > 0 { w.step_fit(r) } else { w.step(r) }; if i % 6 == 5 { same_as_fresh(r, &w, 2, "mid-history")?; } }
            same_as_fresh(r, &w, 6, "end")?;
            Ok(if w.removed.len() > 2 { "removals" } else { "few-removals" })
        }),
        group("snapshot-history", "restoring a snapshot brings back exactly the items and answers of the moment it was taken, whatever was done since", (1200, 25000), |_, r| {
            let depth = r.us(6) as u8;
            let hpg = if r.chance(0.3) { 40 } else { 0 };
            let mut w = World::new(r, 22, depth, hpg);
            let mut snaps: Vec<(LayoutSnapshot, Vec<_>)> = vec![];
            let mut restored = 0;
            for _ in 0..10 + r.us(20) {
                match r.us(8) {
                    0 => { let s = w.layout.create_snapshot(); snaps.push((s, w.placed.clone())); same_as_fresh(r, &w, 1, "after create_snapshot")?; }
                    1 if !snaps.is_empty() => {
                        let i = r.us(snaps.len());
                        w.layout.restore(&snaps[i].0);
                        w.placed = snaps[i].1.clone();
                        w.removed.clear();
                        restored += 1;
                        same_as_fresh(r, &w, 3, "after restore")?;
                    }
                    2 if !snaps.is_empty() => {
                        let i = r.us(snaps.len());
                        w.layout = Layout::from_snapshot(&snaps[i].0);
                        w.placed = snaps[i].1.clone();
                        w.removed.clear();
                        restored += 1;
                        same_as_fresh(r, &w, 3, "after from_snapshot")?;
                    }
                    _ => if hpg > 0 { w.step_fit(r) } else { w.step(r) },
                }
            }
            same_as_fresh(r, &w, 4, "end")?;
            Ok(if restored > 0 { "restored" } else { "no-restore" })
        }),
        group("clones-are-independent", "editing a cloned layout never changes the answers of the original, nor those of a snapshot taken earlier", (400, 8000), |_, r| {
            let mut w = World::new(r, 20, 4, 0);
            for _ in 0..8 { w.step(r); }
            let snap = w.layout.create_snapshot();
            let mut c = w.layout.clone();
            for _ in 0..6 {
                if r.chance(0.5) { let ks: Vec<_> = c.placed_items().keys().collect(); if !ks.is_empty() { c.remove_item(ks[r.us(ks.len())], r.chance(0.5)); } }
                else { let t = w.rand_pos(r); let d = dt0((t.0 + 0.5, t.1)); let i = r.us(4); if !c.placed_items().values().any(|p| p.item_id == i && p.d_transf == d) { c.place_item(&w.items[i].0, d); } }
            }
            same_as_fresh(r, &w, 4, "original after its clone was edited")?;
            w.layout = Layout::from_snapshot(&snap);
            same_as_fresh(r, &w, 4, "snapshot after the clone was edited")?;
            Ok("ok")
        }),
        group("change-bin", "after swapping the bin, the layout answers like a fresh layout of the new bin with the same items", (400, 8000), |_, r| {
            let mut w = World::new(r, 22, 4, 0);
            for _ in 0..8 { w.step(r); }
            let dp = r.us(6) as u8; let nb = rand_bin(r, 1, 22, cfg(dp, 0));
            w.layout.change_bin(nb.bin.clone());
            w.bw = nb;
            same_as_fresh(r, &w, 5, "after change_bin")?;
            for _ in 0..5 { w.step(r); }
            same_as_fresh(r, &w, 4, "edited after change_bin")?;
            Ok("ok")
        }),
        group("node-count", "once removals are committed the search structure is as small as that of a fresh layout", (500, 8000), |_, r| {
            let mut w = World::new(r, 22, 5, 0);
            for _ in 0..14 { w.step(r); }
            let _ = w.layout.create_snapshot();
            let mut fresh = Layout::new(7, w.bw.bin.clone());
            for (_, e, _) in &w.placed { if let HE::PlacedItem { id, dt } = e { fresh.place_item(&w.items[*id].0, *dt); } }
            ensure!(!w.layout.cde().has_uncommitted_deregisters(), "uncommitted deregisters remain after create_snapshot");
            let (a, b) = (w.layout.cde().number_of_nodes(), fresh.cde().number_of_nodes());
            ensure!(a == b, "{a} quadtree nodes, fresh layout has {b}\n{}", w.describe());
            Ok("ok")
        }),
    ]);
}
