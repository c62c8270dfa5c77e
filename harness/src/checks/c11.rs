//! C11: contributions add up to the prediction.
use super::*;
use crate::synth::{chain_model, synth_model};
use fvm::case::*;
use fvm::explain::*;
use fvm::gen::*;
use fvm::rng::Rng;
use fvm::view::*;

pub fn pick_prefix(r: &mut Rng, b: GradientBooster, m: &mut Model) -> GradientBooster {
    if !m.trees.is_empty() && r.chance(0.4) {
        let k = r.below(m.trees.len());
        m.prediction_iteration = Some(k + 1);
        return b.set_prediction_iteration(Some(k));
    }
    b
}

pub fn check(w: &mut W, r: &mut Rng, c: &Case, b: &GradientBooster, m: &Model) {
    let n = if r.chance(0.05) { 0 } else { r.range(1, 25) };
    let probe = gen_probe(r, &c.d, &c.p, n);
    let k = m.n_pred_trees();
    let cols = c.d.cols;
    let sc = scale(m, k) + m.base_score.abs();
    let consistent = m.trees[..k].iter().all(|t| covers_consistent(t, 1e-4));
    let split_cover = m.trees[..k].iter().all(|t| t.nodes.iter().all(|n| n.is_leaf || n.hessian_sum > 0.0));
    let depth = m.trees[..k].iter().flat_map(|t| t.nodes.iter().map(|n| n.depth)).max().unwrap_or(0);
    let mut used = vec![false; cols];
    for t in &m.trees[..k] {
        for f in used_features(t) {
            used[f] = true;
        }
    }
    let pred = match w.call("predict", c, || b.predict(&probe.m(), r.chance(0.5))) {
        Some(v) => v,
        None => return,
    };
    for method in ALL_CM {
        if method == Cm::Prob && c.p.obj != Obj::Log {
            continue;
        }
        let par = r.chance(0.5);
        let got = match w.call("predict_contributions", c, || b.predict_contributions(&probe.m(), cm_of(method), par)) {
            Some(v) => v,
            None => return,
        };
        if got.len() != n * (cols + 1) {
            return w.fail("contributions-shape", format!("{:?}: {} entries for {} rows and {} columns", method, got.len(), n, cols), c);
        }
        let other = match w.call("predict_contributions", c, || b.predict_contributions(&probe.m(), cm_of(method), !par)) {
            Some(v) => v,
            None => return,
        };
        if !same_bits(&got, &other) {
            return w.fail("contributions-parallel", format!("{:?}: differ with the parallel flag", method), c);
        }
        for i in 0..n {
            let row = &got[i * (cols + 1)..(i + 1) * (cols + 1)];
            for j in 0..cols {
                if !used[j] && row[j] != 0.0 {
                    return w.fail("unused-feature", format!("{:?}: row {} gives feature {} which no tree uses {}", method, i, j, row[j]), c);
                }
            }
            let sums = match method {
                Cm::Weight | Cm::Prob => true,
                Cm::Average => split_cover,
                Cm::Shapley => consistent && depth <= 12,
                _ => false,
            };
            if !sums {
                continue;
            }
            let want = if method == Cm::Prob { sigmoid(pred[i]) } else { pred[i] };
            let s: f64 = row.iter().sum();
            let tol = match method {
                Cm::Shapley if depth > 8 => 2e-3 * sc + 1e-9,
                Cm::Shapley => 2e-4 * sc + 1e-9,
                Cm::Prob => 1e-9,
                _ => 1e-10 * sc * (cols as f64 + 10.0) + 1e-12,
            };
            if !((s - want).abs() <= tol) {
                return w.fail("sum", format!("{:?}: contributions of row {} {:?} sum to {} but the prediction is {}", method, i, row, s, want), c);
            }
            w.count("contribution sums compared", 1);
        }
        // a row on its own gets the same contributions
        if n > 1 {
            let i = r.below(n);
            let one = probe.take(&[i]);
            let alone = match w.call("predict_contributions", c, || b.predict_contributions(&one.m(), cm_of(method), par)) {
                Some(v) => v,
                None => return,
            };
            if !same_bits(&alone, &got[i * (cols + 1)..(i + 1) * (cols + 1)]) {
                return w.fail("contributions-batch", format!("{:?}: row {} alone gets other contributions than in its batch", method, i), c);
            }
            w.count("single-row batches compared", 1);
        }
    }
    if m.splits() > 0 && n > 0 {
        w.nontrivial(m.hash() ^ k as u64);
        w.sample(|| c.brief());
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a model (trained or loaded from a constructed file) and a batch of probe rows explained with all seven methods; non-trivial when the model has a split; distinct by model contents and prediction iteration");
    ctx.stage("trained", 6000, 100000, 25.0, 300.0, |w, r| {
        let prof = Profile { evals: r.chance(0.2), ..Default::default() };
        let c = gen_case(r, &prof);
        let (b, mut m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return w.count("overflowed models skipped", 1);
        }
        let b = pick_prefix(r, b, &mut m);
        check(w, r, &c, &b, &m);
    });
    ctx.stage("loaded", 6000, 100000, 15.0, 300.0, |w, r| {
        if let Some((c, b, mut m)) = synth_model(w, r) {
            let b = pick_prefix(r, b, &mut m);
            check(w, r, &c, &b, &m);
        }
    });
    ctx.stage("long-paths", 2000, 30000, 10.0, 200.0, |w, r| {
        if let Some((c, b, mut m)) = chain_model(w, r) {
            let b = pick_prefix(r, b, &mut m);
            check(w, r, &c, &b, &m);
        }
    });
    ctx.stage("large", 6, 60, 15.0, 200.0, |w, r| {
        let prof = Profile { min_rows: 3000, max_rows: 12000, big: 0.0, iters: 30, ..Default::default() };
        let c = gen_case(r, &prof);
        let (b, mut m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return;
        }
        let b = pick_prefix(r, b, &mut m);
        check(w, r, &c, &b, &m);
    });
}
