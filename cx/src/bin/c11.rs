use cx::*;
use jagua_rs::collision_detection::hpg::grid::Grid;
use jagua_rs::collision_detection::hpg::grid_generator;
use jagua_rs::collision_detection::hazard::{Hazard, HazardEntity as HE};
use std::sync::Arc;

fn main() {
    main_with("C11", vec![
        exhaustive("addressing", "row/column to index is a bijection onto the cells, out-of-range is reported, neighbours are exactly the up to 8 surrounding cells", (12 * 12, 30 * 30), |i, _| {
            let side = if i < 144 { 12 } else { 30 };
            let (nr, nc) = if i < 144 { (1 + (i / 12) as usize, 1 + (i % 12) as usize) } else { (1 + (i / 30) as usize % side, 1 + (i % 30) as usize) };
            let mut els = vec![];
            for y in 0..nr { for x in 0..nc { els.push(((x, y), pt((x as f64 * 1.5 - 3.0, y as f64 * 2.0 - 7.0)))); } }
            if i % 2 == 0 { els.reverse(); }
            let g = Grid::new(els);
            ensure!(g.n_rows == nr && g.n_cols == nc && g.n_elements == nr * nc && g.cells.len() == nr * nc, "dimensions {} {} {} of a {nr}x{nc} grid", g.n_rows, g.n_cols, g.n_elements);
            let mut seen = vec![false; nr * nc];
            for y in 0..nr { for x in 0..nc {
                let k = g.to_index(y, x).map_err(|_| format!("({y},{x}) out of bounds"))?;
                ensure!(!std::mem::replace(&mut seen[k], true), "index {k} used twice");
                ensure!(g.cells[k] == Some((x, y)), "cell {k} holds {:?}, expected {:?}", g.cells[k], (x, y));
                ensure!(g.to_row_col(k) == Some((y, x)), "to_row_col({k}) = {:?}", g.to_row_col(k));
                ensure!(g.rows[y].into_inner() == y as f32 * 2.0 - 7.0 && g.cols[x].into_inner() == x as f32 * 1.5 - 3.0, "row/column coordinates");
                let mut exp: Vec<usize> = vec![];
                for dy in -1i64..=1 { for dx in -1i64..=1 {
                    if dx == 0 && dy == 0 { continue; }
                    let (yy, xx) = (y as i64 + dy, x as i64 + dx);
                    if yy >= 0 && xx >= 0 && yy < nr as i64 && xx < nc as i64 { exp.push((yy * nc as i64 + xx) as usize); }
                } }
                let mut got: Vec<usize> = g.get_neighbors(k).to_vec();
                let own = got.iter().filter(|n| **n == k).count();
                got.retain(|n| *n != k); got.sort();
                ensure!(got == exp && own == 8 - exp.len(), "neighbours of ({y},{x}) in {nr}x{nc}: {:?}, expected {exp:?} and itself otherwise", g.get_neighbors(k));
            } }
            for (y, x) in [(nr, 0), (0, nc), (nr, nc), (usize::MAX, 0), (0, usize::MAX), (nr, usize::MAX)] { ensure!(g.to_index(y, x).is_err(), "to_index({y},{x}) of {nr}x{nc} accepted"); }
            for k in [nr * nc, nr * nc + 1, usize::MAX] { ensure!(g.to_row_col(k).is_none(), "to_row_col({k}) of {nr}x{nc} accepted"); }
            Ok("grid")
        }),
        group("sparse", "with missing elements every element still sits at its own row and column", (2000, 40000), |_, r| {
            let n = 1 + r.us(25);
            let mut els: Vec<((f64, f64), _)> = vec![];
            for _ in 0..n { let p = (r.int(-4, 6) as f64 / 2.0, r.int(-4, 6) as f64 / 2.0); if !els.iter().any(|e: &((f64, f64), _)| e.0 == p) { els.push((p, pt(p))); } }
            let g = Grid::new(els.clone());
            ensure!(g.n_elements == els.len() && g.cells.iter().flatten().count() == els.len(), "elements lost: {} of {}", g.cells.iter().flatten().count(), els.len());
            ensure!(g.rows.windows(2).all(|w| w[0] < w[1]) && g.cols.windows(2).all(|w| w[0] < w[1]), "rows/columns not strictly increasing");
            for k in 0..g.cells.len() {
                let (y, x) = g.to_row_col(k).unwrap();
                let c = (g.cols[x].into_inner() as f64, g.rows[y].into_inner() as f64);
                match &g.cells[k] { Some(p) => ensure!(*p == c, "element {p:?} at the cell of {c:?}"), None => ensure!(!els.iter().any(|e| e.0 == c), "element {c:?} missing") }
            }
            Ok("ok")
        }),
        group("range-cover", "the rows (columns) returned for a coordinate range start at or before and end at or after the range wherever the grid reaches, and are as tight as possible", (6000, 100000), |_, r| {
            let n = 1 + r.us(12);
            let mut cs: Vec<f64> = vec![];
            while cs.len() < n { let v = r.int(-20, 20) as f64 / 2.0; if !cs.contains(&v) { cs.push(v); } }
            let els: Vec<_> = cs.iter().flat_map(|y| [(0, pt((1.0, *y))), (1, pt((2.0, *y)))]).collect();
            let elsx: Vec<_> = cs.iter().flat_map(|x| [(0, pt((*x, 5.0))), (1, pt((*x, 6.0)))]).collect();
            cs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            let (gy, gx) = (Grid::new(els), Grid::new(elsx));
            let (lo, hi) = { let a = r.int(-28, 28) as f64 / 4.0 * 2.0; let b = r.int(-28, 28) as f64 / 4.0 * 2.0; (a.min(b), a.max(b)) };
            for (what, rg) in [("rows", gy.rows_in_range(lo as f32..=hi as f32)), ("columns", gx.cols_in_range(lo as f32..=hi as f32))] {
                let (s, e) = (*rg.start(), *rg.end());
                ensure!(s < n && e < n && s <= e, "{what} {s}..={e} of {n} for [{lo},{hi}] in {cs:?}");
                ensure!(cs[s] <= lo || s == 0, "{what} {s}..={e} does not cover the start of [{lo},{hi}] in {cs:?}");
                ensure!(cs[e] >= hi || e == n - 1, "{what} {s}..={e} does not cover the end of [{lo},{hi}] in {cs:?}");
                ensure!(s + 1 >= n || cs[s + 1] > lo, "{what} {s}..={e} starts earlier than needed for [{lo},{hi}] in {cs:?}");
                ensure!(e == 0 || cs[e - 1] < hi, "{what} {s}..={e} ends later than needed for [{lo},{hi}] in {cs:?}");
            }
            Ok("ok")
        }),
        group("generated-cells", "the generated cells are equal squares on a regular lattice from the corner of the box, none is missing where a hazard-free point exists, none lies deep inside a hazard", (500, 8000), |_, r| {
            let bw = rand_bin(r, 0, 30, cfg(2, 0));
            let n = 5 + r.us(300);
            let b = { let b = bw.bin.bbox().inflate_to_square(); b };
            let hz: Vec<Hazard> = bw.statics.iter().filter(|(e, _)| !matches!(e, HE::InferiorQualityZone { .. })).map(|(e, s)| Hazard::new(*e, Arc::new(sp(s)))).collect();
            let cells = grid_generator::generate(b.clone(), &hz, n);
            ensure!(!cells.is_empty(), "no cells");
            let bb = rb(&b);
            let d = (cells[0].x_max - cells[0].x_min) as f64;
            let tol = 1e-3 * (bb.2 - bb.0);
            for c in &cells {
                let q = rb(c);
                ensure!(((q.2 - q.0) - d).abs() < tol && ((q.3 - q.1) - d).abs() < tol, "cell {q:?} is not a square of side {d}");
                let (fx, fy) = ((q.0 - bb.0) / d, (q.1 - bb.1) / d);
                ensure!((fx - fx.round()).abs() * d < tol && (fy - fy.round()).abs() * d < tol && fx > -0.5 && fy > -0.5, "cell {q:?} is off the lattice of side {d} in {bb:?}");
            }
            // a hazard-free point of the box is covered by some cell
            for _ in 0..40 {
                let p = (r.range(bb.0, bb.2), r.range(bb.1, bb.3));
                let free = bw.statics.iter().all(|(e, s)| matches!(e, HE::InferiorQualityZone { .. }) || ((pip(s, p) == Loc::In) == (*e == HE::BinExterior) && border_dist(s, p) > 2.0 * tol));
                if free { ensure!(cells.iter().any(|c| { let q = rb(c); p.0 >= q.0 - tol && p.0 <= q.2 + tol && p.1 >= q.1 - tol && p.1 <= q.3 + tol }), "free point {p:?} of {bb:?} is in no cell (side {d})"); }
            }
            Ok("ok")
        }),
    ]);
}
