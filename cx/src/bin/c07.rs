use cx::prob::*;
use cx::*;

fn history(r: &mut Rng, mut w: PW) -> Result<&'static str, String> {
    w.check("start")?;
    let mut removed = 0;
    for step in 0..10 + r.us(40) {
        let k = w.step(r)?;
        if k == "remove" || k == "drop" { removed += 1; }
        w.check(&format!("step {step}: {k}"))?;
        w.check_usage()?;
    }
    Ok(if removed > 3 { "many-removals" } else { "few-removals" })
}

fn main() {
    main_with("C07", vec![
        group("bin-packing", "after every operation: missing + placed = demand, stock + open layouts = initial stock, cost and usage equal the recomputed values, layout ids are never reused, empty layouts are closed", (4000, 80000), |_, r| { let w = PW::bp(r, 0, false); history(r, w) }),
        group("strip-packing", "the same bookkeeping for strip packing", (2500, 40000), |_, r| { let w = PW::sp(r, 0, false); history(r, w) }),
        group("more-than-demanded", "the bookkeeping also holds when more copies than demanded are placed", (1500, 30000), |_, r| { let w = if r.chance(0.5) { PW::bp(r, 0, true) } else { PW::sp(r, 0, true) }; history(r, w) }),
    ]);
}
