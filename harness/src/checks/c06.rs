//! C06: monotone constraints hold for every prediction.
use super::*;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::view::*;
use forust_ml::GradientBooster;

fn next(v: f64, up: bool) -> f64 {
    if v == 0.0 {
        return if up { f64::from_bits(1) } else { -f64::from_bits(1) };
    }
    let b = v.to_bits();
    let grow = (v > 0.0) == up;
    f64::from_bits(if grow { b + 1 } else { b - 1 })
}

fn check(w: &mut W, r: &mut fvm::rng::Rng, c: &Case, b: &mut GradientBooster, m: &Model) {
    let p = &c.p;
    let k = m.trees.len();
    for f in 0..c.d.cols {
        let con = p.con(f);
        if con == 0 {
            continue;
        }
        let mut grid: Vec<f64> = vec![];
        let mut used = false;
        for t in &m.trees {
            for n in t.nodes.iter().filter(|n| !n.is_leaf && n.split_feature == f) {
                grid.extend([n.split_value, next(n.split_value, true), next(n.split_value, false)]);
                used = true;
            }
        }
        if !used {
            continue;
        }
        grid.extend([0.0, -1e300, 1e300]);
        for _ in 0..5 {
            grid.push(c.d.get(r.below(c.d.rows), f));
        }
        grid.retain(|v| v.is_finite() && !p.is_missing(*v));
        grid.sort_by(|a, b| a.partial_cmp(b).unwrap());
        grid.dedup();
        for _ in 0..4 {
            // Other features: mixtures of training rows, thresholds, missing.
            let base: Vec<f64> = (0..c.d.cols)
                .map(|j| {
                    let u = r.f();
                    if u < 0.25 {
                        p.missing
                    } else if u < 0.6 {
                        c.d.get(r.below(c.d.rows), j)
                    } else {
                        let t = &m.trees[r.below(k)];
                        let v: Vec<f64> = t.nodes.iter().filter(|n| !n.is_leaf && n.split_feature == j).map(|n| n.split_value).collect();
                        if v.is_empty() {
                            c.d.get(r.below(c.d.rows), j)
                        } else {
                            let s = r.pick(&v);
                            r.pick(&[s, next(s, false)])
                        }
                    }
                })
                .collect();
            let rows: Vec<Vec<f64>> = grid
                .iter()
                .map(|v| {
                    let mut x = base.clone();
                    x[f] = *v;
                    x
                })
                .collect();
            let d = Data::from_rows(&rows, c.d.cols);
            let mut its = vec![k];
            its.push(1);
            its.push(r.range(1, k));
            for it in its {
                b.prediction_iteration = Some(it);
                let pr = match w.call("predict", c, || b.predict(&d.m(), false)) {
                    Some(v) => v,
                    None => return,
                };
                let scale: f64 = m.trees[..it]
                    .iter()
                    .map(|t| t.nodes.iter().filter(|n| n.is_leaf).map(|n| n.weight_value.abs() as f64).fold(0.0, f64::max))
                    .sum();
                let tol = 1e-6 * scale + 1e-12 * m.base_score.abs();
                // running extreme, so that small steps cannot add up unseen
                let mut ext = pr[0];
                for i in 1..pr.len() {
                    let bad = if con > 0 { pr[i] < ext - tol } else { pr[i] > ext + tol };
                    if bad {
                        return w.fail(
                            "not-monotone",
                            format!("feature {} is constrained {:+} but with {} trees the prediction moves from {} to {} when it rises to {} (others fixed at {:?})", f, con, it, ext, pr[i], grid[i], base),
                            c,
                        );
                    }
                    ext = if con > 0 { ext.max(pr[i]) } else { ext.min(pr[i]) };
                    w.count("steps along a constrained feature", 1);
                }
                if pr.iter().any(|v| *v != pr[0]) {
                    w.count("sweeps that vary", 1);
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training set + parameters with at least one constrained feature; each used constrained feature is swept over all its thresholds and their neighbours; non-trivial when a constrained feature is used; distinct by model contents");
    ctx.stage("sweep", 40000, 600000, 40.0, 500.0, |w, r| {
        let prof = Profile { extreme: r.chance(0.3), iters: 8, max_rows: 300, exact: r.chance(0.3), ..Default::default() };
        let mut c = gen_case(r, &prof);
        let mut mm = std::collections::BTreeMap::new();
        for j in 0..c.d.cols {
            if r.chance(0.6) {
                // zero: named in the map, and unconstrained
                mm.insert(j, r.pick(&[1i8, -1, 1, -1, 0]));
            }
        }
        if mm.values().all(|v| *v == 0) {
            mm.insert(0, 1);
        }
        c.p.mono = Some(mm);
        if r.chance(0.8) {
            c.p.max_depth = r.range(2, 7);
            c.p.gamma = 0.0;
            c.p.l1 = 0.0;
            c.p.mlw = r.pick(&[0.01, 0.5, 1.0]);
        }
        c.sanitise();
        let (mut b, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return w.count("overflowed models skipped", 1);
        }
        if m.trees.is_empty() {
            return;
        }
        check(w, r, &c, &mut b, &m);
        if m.trees.iter().any(|t| t.nodes.iter().any(|n| !n.is_leaf && c.p.con(n.split_feature) != 0)) {
            w.nontrivial(m.hash());
            w.sample(|| c.brief());
        }
    });
}
