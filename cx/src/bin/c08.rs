use cx::prob::*;
use cx::*;
use jagua_rs::entities::problems::problem::Problem;
use jagua_rs::entities::problems::strip_packing::SPProblem;
use std::collections::BTreeMap;

fn sp_of(w: &mut PW) -> &mut SPProblem { let Problem::SP(p) = &mut w.prob else { unreachable!() }; p }

/// what the strip must look like after `modify` to `want`: exactly the items that lie strictly inside survive, untouched
fn resized(w: &mut PW, before: &St, shapes: &BTreeMap<String, Vec<P>>, want: (f64, f64, f64, f64), when: &str, r: &mut Rng) -> Result<usize, String> {
    let p = sp_of(w);
    let b = rb(&p.layout.bin.bbox());
    let tol = 1e-3;
    ensure!((b.0 - want.0).abs() < tol && (b.1 - want.1).abs() < tol && (b.2 - want.2).abs() < tol && (b.3 - want.3).abs() < tol, "{when}: strip became {b:?}, expected {want:?}");
    let sv = p.strip_width() as f64;
    ensure!((sv - (b.2 - b.0)).abs() < tol && (p.strip_height() as f64 - (b.3 - b.1)).abs() < tol, "{when}: strip_width/height do not match the strip");
    ensure!((p.layout.bin.area as f64 - (b.2 - b.0) * (b.3 - b.1)).abs() < 1e-2 * (1.0 + p.layout.bin.area as f64), "{when}: area of the strip bin");
    let old = &before.led.values().next().unwrap().1;
    let mut now: Vec<String> = p.layout.placed_items().values().map(|pi| format!("{} {:?}", pi.item_id, pi.d_transf)).collect();
    now.sort();
    let mut removed = 0;
    for e in old {
        let k = format!("{} {:?}", e.1, e.2);
        let s = &shapes[&k];
        let sb = bbox(s);
        let slack = (sb.0 - b.0).min(b.2 - sb.2).min(sb.1 - b.1).min(b.3 - sb.3);
        let here = now.iter().position(|x| *x == k);
        if slack > 1e-3 { ensure!(here.is_some(), "{when}: item {k} {s:?} lies inside the strip {b:?} but was removed"); }
        if slack < -1e-3 { ensure!(here.is_none(), "{when}: item {k} {s:?} reaches outside the strip {b:?} but was kept"); }
        match here { Some(i) => { now.remove(i); } None => removed += 1 }
    }
    ensure!(now.is_empty(), "{when}: items appeared out of nowhere: {now:?}");
    // ledger follows the real survivors
    let es = p.layout.placed_items().iter().map(|(k, pi)| (k, pi.item_id, pi.d_transf)).collect();
    let id = p.layout.id();
    w.st.led.clear(); w.st.led.insert(id, (0, es)); w.st.strip = Some(b);
    w.check(when)?;
    w.check_usage()?;
    // the collision engine works on the new strip
    let p = sp_of(w);
    for _ in 0..4 {
        let q: Vec<P> = rect_poly({ let x = r.range(want.0, want.2); let y = r.range(want.1, want.3); (x, y, x + 1.5, y + 1.25) }).iter().map(|q| fp(pt(*q))).collect();
        let m = bbox(&q);
        let slack = (m.0 - b.0).min(b.2 - m.2).min(m.1 - b.1).min(b.3 - m.3);
        if slack.abs() < 1e-2 { continue; }
        let near = p.layout.placed_items().values().any(|pi| borders_dist(&pts(&pi.shape), &q) < 1e-2);
        if near { continue; }
        let exp = slack < 0.0 || p.layout.placed_items().values().any(|pi| regions_touch(&pts(&pi.shape), &q));
        ensure!(p.layout.cde().poly_collides(&sp(&q), &[]) == exp, "{when}: query {q:?} answered {} in the resized strip {b:?}", !exp);
    }
    Ok(removed)
}

fn shapes_of(w: &mut PW) -> BTreeMap<String, Vec<P>> { sp_of(w).layout.placed_items().values().map(|pi| (format!("{} {:?}", pi.item_id, pi.d_transf), pts(&pi.shape))).collect() }

fn main() {
    main_with("C08", vec![
        group("resize-history", "resizing at the back, at the front or around the items moves exactly the requested side(s), keeps the height, keeps every item that fits, drops every item that does not, and updates the demand bookkeeping", (4000, 80000), |_, r| {
            let mut w = PW::sp(r, 0, false);
            let mut removed = 0;
            for step in 0..4 + r.us(6) {
                for _ in 0..r.us(5) { w.step(r)?; }
                let sh = shapes_of(&mut w);
                let before = w.st.clone();
                let b = before.strip.unwrap();
                let nw = { let m = r.int(4, 45) as f64; if r.chance(0.2) { m + 0.37 } else { m } };
                let k = r.us(4);
                let want = match k {
                    0 => { sp_of(&mut w).modify_strip_in_back(nw as f32); (b.0, b.1, b.0 + nw, b.3) }
                    1 => { sp_of(&mut w).modify_strip_at_front(nw as f32); (b.2 - nw, b.1, b.2, b.3) }
                    2 => {
                        let (lo, hi) = sh.values().map(|s| bbox(s)).fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x.0), a.1.max(x.2)));
                        let (lo, hi) = if sh.is_empty() { (0.0, 0.0) } else { (lo, hi) };
                        let c = (lo + hi) / 2.0;
                        sp_of(&mut w).modify_strip_centered(nw as f32);
                        (c - nw / 2.0, b.1, c + nw / 2.0, b.3)
                    }
                    _ => { let x0 = r.int(-5, 10) as f64; let rc = (x0, b.1, x0 + nw, b.3); sp_of(&mut w).modify_strip(rect(rc)); rc }
                };
                removed += resized(&mut w, &before, &sh, want, &format!("step {step}, operation {k}, width {nw}, old strip {b:?}"), r)?;
            }
            Ok(if removed > 0 { "items-removed" } else { "all-kept" })
        }),
        group("fit-strip", "fitting the strip keeps all items and makes the strip as wide as the occupied range (up to the documented tolerance)", (2000, 40000), |_, r| {
            let mut w = PW::sp(r, 0, false);
            // only items strictly inside the strip's height
            for _ in 0..3 + r.us(8) {
                w.place(r)?;
                let b = w.st.strip.unwrap();
                let bad: Vec<_> = sp_of(&mut w).layout.placed_items().iter().filter(|(_, pi)| { let x = bbox(&pts(&pi.shape)); x.1 <= b.1 + 1e-3 || x.3 >= b.3 - 1e-3 }).map(|(k, _)| k).collect();
                for k in bad { use jagua_rs::entities::problems::problem_generic::ProblemGeneric; w.prob.remove_item(strip_idx(), k, true); for l in w.st.led.values_mut() { l.1.retain(|e| e.0 != k); } }
            }
            if w.st.led.values().all(|l| l.1.is_empty()) { return Ok("empty"); }
            let sh = shapes_of(&mut w);
            let before = w.st.clone();
            let b = before.strip.unwrap();
            let (lo, hi) = sh.values().map(|s| bbox(s)).fold((f64::MAX, f64::MIN), |a, x| (a.0.min(x.0), a.1.max(x.2)));
            let p = sp_of(&mut w);
            let (or, ow) = (p.occupied_range().unwrap(), p.occupied_width() as f64);
            ensure!((or.0 as f64 - lo).abs() < 1e-4 && (or.1 as f64 - hi).abs() < 1e-4 && (ow - (hi - lo)).abs() < 1e-3, "occupied range {or:?} width {ow}, items span {lo}..{hi}");
            p.fit_strip();
            let tol = (hi - lo) * 2e-2;
            let nb = rb(&p.layout.bin.bbox());
            ensure!(nb.0 <= lo + 1e-4 && nb.2 >= hi - 1e-4 && nb.0 >= lo - tol && nb.2 <= hi + tol, "fitted strip {nb:?} for items spanning {lo}..{hi}");
            let n = resized(&mut w, &before, &sh, (nb.0, b.1, nb.2, b.3), "fit_strip", r)?;
            ensure!(n == 0, "fit_strip lost {n} items");
            Ok("fitted")
        }),
    ]);
}
