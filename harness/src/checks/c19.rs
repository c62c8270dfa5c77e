//! C19: binning preserves order and only splits at observed values.
use super::*;
use fvm::case::*;
use fvm::gen::*;

struct Column {
    vals: Vec<f64>,
    /// Cumulative weight up to and including each distinct value.
    cum: Vec<f64>,
    total: f64,
}

fn column(c: &Case, j: usize) -> Column {
    let mut v: Vec<(f64, f64)> = c.d.col(j).iter().zip(&c.d.w).filter(|(x, _)| !c.p.is_missing(**x)).map(|(a, b)| (*a, *b)).collect();
    v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let (mut vals, mut cum): (Vec<f64>, Vec<f64>) = (vec![], vec![]);
    let mut s = 0.0;
    for (x, w) in v {
        s += w;
        if vals.last() == Some(&x) {
            *cum.last_mut().unwrap() = s;
        } else {
            vals.push(x);
            cum.push(s);
        }
    }
    Column { vals, cum, total: s }
}

fn check(w: &mut W, c: &Case, m: &Model) {
    let nb = c.p.nbins as usize;
    for j in 0..c.d.cols {
        let col = column(c, j);
        let mut seen: Vec<f64> = vec![];
        for (ti, t) in m.trees.iter().enumerate() {
            for (i, n) in t.nodes.iter().enumerate() {
                if n.is_leaf || n.split_feature != j {
                    continue;
                }
                let v = n.split_value;
                let k = match col.vals.binary_search_by(|a| a.partial_cmp(&v).unwrap()) {
                    Ok(k) => k,
                    Err(_) => return w.fail("threshold-not-observed", format!("tree {} node {} splits feature {} at {} which is not a value of that column", ti, i, j, v), c),
                };
                if !seen.contains(&v) {
                    seen.push(v);
                }
                w.count("thresholds compared with observed values", 1);
                // With more distinct values than bins the thresholds are the
                // weighted quantiles i/nbins.
                if col.vals.len() > nb + 1 && col.total > 0.0 {
                    let below = if k == 0 { 0.0 } else { col.cum[k - 1] / col.total };
                    let incl = col.cum[k] / col.total;
                    let e = 1e-9;
                    let lo = ((below - e) * nb as f64).floor().max(0.0) as usize;
                    let hi = ((incl + e) * nb as f64).ceil() as usize + 1;
                    let hit = (lo..=hi).filter(|q| *q < nb).any(|q| {
                        let f = q as f64 / nb as f64;
                        (below < f + e || k == 0) && f <= incl + e
                    });
                    if !hit {
                        return w.fail("threshold-not-quantile", format!("tree {} node {} splits feature {} at {} (weight below {}, up to {}) which is not one of the {} quantiles", ti, i, j, v, below, incl, nb), c);
                    }
                    w.count("thresholds compared with quantiles", 1);
                }
            }
        }
        if seen.len() > nb + 1 {
            return w.fail("too-many-thresholds", format!("feature {} uses {} thresholds with {} bins", j, seen.len(), nb), c);
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training run; thresholds are compared with the values and weighted quantiles of their column, and a step placed at a chosen value must be found exactly; non-trivial when the model has a split; distinct by model contents");
    ctx.stage("thresholds", 12000, 200000, 25.0, 250.0, |w, r| {
        let prof = Profile { zero_weights: r.chance(0.3), ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.nbins = r.pick(&[1, 2, 3, 4, 5, 7, 10, 20, 50, 100, 256, 300]);
        if r.chance(0.6) {
            c.p.max_depth = 8;
            c.p.max_leaves = usize::MAX;
            c.p.gamma = 0.0;
            c.p.mlw = 0.01;
            c.p.iterations = c.p.iterations.max(3);
        }
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        check(w, &c, &m);
        if m.splits() > 0 {
            w.nontrivial(m.hash());
            w.sample(|| c.brief());
        }
    });
    ctx.stage("large", 12, 150, 25.0, 200.0, |w, r| {
        let prof = Profile { min_rows: 2000, max_rows: 20000, big: 0.0, iters: 4, zero_weights: false, ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.nbins = r.pick(&[255, 256, 257, 300, 1000, 5000, 40000]);
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        check(w, &c, &m);
        if m.splits() > 0 {
            w.nontrivial(m.hash());
        }
    });
    // A step in the target exactly at a value of a column with no more than
    // nbins distinct values: only a threshold at that value separates it.
    let step = |w: &mut W, r: &mut fvm::rng::Rng, k: usize, nbins: u16, reps: usize| {
        let kind = r.below(5);
        let mut vals: Vec<f64> = vec![];
        let mut x = r.pick(&[0.0, -5.0, 1.0, 1e10, -1e-5]);
        for _ in 0..k {
            vals.push(x);
            x = match kind {
                0 => x + 1.0,
                1 => x + r.f() + 1e-6,
                2 => {
                    if x >= 0.0 {
                        f64::from_bits(x.to_bits() + 1)
                    } else {
                        f64::from_bits(x.to_bits() - 1)
                    }
                }
                3 => x + 10f64.powi(r.range(0, 12) as i32 - 6) + x.abs() * 1e-12,
                _ => x + 0.1,
            };
        }
        vals.dedup();
        let k = vals.len();
        if k < 2 {
            return;
        }
        let at = r.range(1, k - 1);
        let mut rows: Vec<(f64, f64, f64)> = vec![];
        for (i, v) in vals.iter().enumerate() {
            for _ in 0..r.range(1, reps) {
                rows.push((*v, if i >= at { 1.0 } else { 0.0 }, r.pick(&[1.0, 1.0, 0.5, 2.0])));
            }
        }
        let miss = r.chance(0.3);
        let marker = if miss { r.pick(&[f64::NAN, -12345.0]) } else { f64::NAN };
        if miss {
            for _ in 0..r.range(1, 10) {
                rows.push((marker, r.below(2) as f64, 1.0));
            }
        }
        if r.chance(0.3) {
            // rows without weight, at values that others have too
            for _ in 0..r.range(1, 8) {
                let v = vals[r.below(k)];
                rows.push((v, r.below(2) as f64, 0.0));
            }
        }
        for i in (1..rows.len()).rev() {
            rows.swap(i, r.below(i + 1));
        }
        let n = rows.len();
        let p = Params {
            obj: Obj::Sq,
            iterations: 1,
            lr: 1.0,
            l2: 0.0,
            max_depth: 1,
            mlw: 0.25,
            base_score: 0.0,
            nbins,
            missing: marker,
            cmb: r.chance(0.5),
            mnt: Mnt::None,
            ams: false,
            parallel: r.chance(0.3),
            ..Default::default()
        };
        let d = Data { rows: n, cols: 1, x: rows.iter().map(|v| v.0).collect(), y: rows.iter().map(|v| v.1).collect(), w: rows.iter().map(|v| v.2).collect() };
        let c = Case { label: format!("step at value {} of {}", at, k), p, d, evals: vec![] };
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let root = &m.trees[0].nodes[0];
        if root.is_leaf {
            return w.fail("step-missed", format!("a step at value {} of {} distinct values ({} bins) is not split at all", at, k, nbins), &c);
        }
        if root.split_value != vals[at] {
            return w.fail("step-missed", format!("a step at {} (value {} of {}, {} bins) is split at {}", vals[at], at, k, nbins, root.split_value), &c);
        }
        w.count("steps located", 1);
        w.nontrivial(m.hash());
    };
    ctx.stage("step", 6000, 100000, 15.0, 150.0, |w, r| {
        let k = r.range(2, 60);
        let nbins = r.range(k, k + 5) as u16;
        step(w, r, k, nbins, 3);
    });
    ctx.stage("step-wide", 16, 200, 15.0, 150.0, |w, r| {
        let k = r.pick(&[250, 255, 256, 257, 300, 1000, 4096, 20000, 40000, 65534]);
        let nbins = (k + r.range(0, 1)).min(65535) as u16;
        step(w, r, k, nbins, 2);
    });
    // Weights that put a value's cumulative share a hair above or below a
    // quantile: the cut points follow, and a step placed at one is found there.
    ctx.stage("near-quantile", 6000, 60000, 10.0, 120.0, |w, r| {
        let nb = r.range(3, 24);
        let total = r.pick(&[1.0, 1.0, 10.0, 1e-2, 1000.0]);
        let mut x: Vec<f64> = vec![];
        let mut wt: Vec<f64> = vec![];
        let (mut v, mut done) = (r.pick(&[0.0, -3.0, 1e6]), 0.0);
        for i in 1..=nb {
            let d = r.pick(&[1e-8, 2e-8, 4e-8, 1e-7, 1e-6, 1e-3]) * r.pick(&[1.0, -1.0]);
            let end = if i == nb { 1.0 } else { i as f64 / nb as f64 + d };
            let k = r.range(1, 4);
            let parts: Vec<f64> = (0..k).map(|_| 0.2 + r.f()).collect();
            let s: f64 = parts.iter().sum();
            for q in parts {
                x.push(v);
                wt.push((end - done) * q / s * total);
                v += r.pick(&[1.0, 0.5, 1e-3]);
            }
            done = end;
        }
        let n = x.len();
        if n <= nb + 1 {
            return;
        }
        let sum: f64 = wt.iter().sum();
        let mut cuts: Vec<usize> = vec![];
        for i in 0..nb {
            let f = i as f64 / nb as f64;
            let (mut c, mut at, mut margin) = (0.0, n - 1, f64::MAX);
            for (k, q) in wt.iter().enumerate() {
                c += q / sum;
                margin = margin.min((c - f).abs());
                if c >= f {
                    at = k;
                    break;
                }
            }
            if i > 0 && margin < 1e-9 {
                return; // rounding decides
            }
            cuts.push(at);
        }
        cuts.dedup();
        let inner: Vec<usize> = cuts.iter().copied().filter(|k| *k > 0).collect();
        if inner.is_empty() {
            return;
        }
        let at = inner[r.below(inner.len())];
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, r.below(i + 1));
        }
        let p = Params { obj: Obj::Sq, iterations: 1, lr: 1.0, l2: 0.0, max_depth: 1, mlw: 0.0, base_score: 0.0, nbins: nb as u16, mnt: Mnt::None, ams: false, cmb: r.chance(0.5), parallel: r.chance(0.3), ..Default::default() };
        let d = Data { rows: n, cols: 1, x: order.iter().map(|k| x[*k]).collect(), y: order.iter().map(|k| if *k >= at { 1.0 } else { 0.0 }).collect(), w: order.iter().map(|k| wt[*k]).collect() };
        let c = Case { label: format!("step at a weighted quantile, {} bins", nb), p, d, evals: vec![] };
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        check(w, &c, &m);
        let root = &m.trees[0].nodes[0];
        if root.is_leaf || root.split_value != x[at] {
            return w.fail("quantile-step-missed", format!("the target steps at {}, the weighted quantile of one of {} bins, but the split is at {:?}", x[at], nb, if root.is_leaf { None } else { Some(root.split_value) }), &c);
        }
        w.count("steps at weighted quantiles located", 1);
        w.nontrivial(m.hash());
    });
}
