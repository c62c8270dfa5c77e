//! C17: partial dependence is the cover-weighted tree expectation.
use super::*;
use crate::checks::c11::pick_prefix;
use crate::synth::synth_model;
use fvm::case::*;
use fvm::explain::*;
use fvm::gen::*;
use fvm::rng::Rng;

fn check(w: &mut W, r: &mut Rng, c: &Case, b: &GradientBooster, m: &Model) {
    let k = m.n_pred_trees();
    let ok = m.trees[..k].iter().all(|t| {
        t.nodes.iter().all(|n| n.is_leaf || n.children().iter().map(|c| t.nodes[*c].hessian_sum as f64).sum::<f64>() > 0.0)
    });
    if !ok {
        return w.count("models with empty branches skipped", 1);
    }
    let sc = scale(m, k);
    let depth = m.trees[..k].iter().flat_map(|t| t.nodes.iter().map(|n| n.depth)).max().unwrap_or(0) as f64;
    let tol = 3e-7 * (depth + 4.0) * sc + 1e-12 * (1.0 + m.base_score.abs()) + 1e-12;
    for f in 0..c.d.cols {
        let used = m.trees[..k].iter().any(|t| used_features(t).contains(&f));
        let single = m.trees[..k].iter().all(|t| used_features(t).iter().all(|x| *x == f));
        let n = 6;
        let probe = gen_probe(r, &c.d, &c.p, n);
        let mut vals: Vec<f64> = probe.col(f).to_vec();
        vals.push(c.p.missing);
        // exactly on, and just below, a threshold
        let th: Vec<f64> = m.trees[..k].iter().flat_map(|t| t.nodes.iter()).filter(|n| !n.is_leaf && n.split_feature == f).map(|n| n.split_value).collect();
        if !th.is_empty() {
            let t = r.pick(&th);
            vals.push(t);
            vals.push(if t > 0.0 { f64::from_bits(t.to_bits() - 1) } else { t - 1e-3 * (1.0 + t.abs()) });
        }
        let mut first: Option<f64> = None;
        for v in vals {
            if v.is_nan() && !c.p.is_missing(v) {
                continue;
            }
            let got = match w.call("value_partial_dependence", c, || b.value_partial_dependence(f, v)) {
                Some(v) => v,
                None => return,
            };
            let mut row = vec![0.0; c.d.cols];
            row[f] = v;
            let want = m.base_score + m.trees[..k].iter().map(|t| expect(t, &row, &c.p, &|x| x == f, 0)).sum::<f64>();
            if !((got - want).abs() <= tol) {
                return w.fail("partial-dependence", format!("feature {} at {}: {} but the expectation is {}", f, v, got, want), c);
            }
            w.count("partial dependence values compared", 1);
            if !used {
                if let Some(x) = first {
                    if (x - got).abs() > 1e-12 * (1.0 + x.abs()) {
                        return w.fail("partial-dependence-unused", format!("feature {} is not used but its partial dependence varies", f), c);
                    }
                }
                first = Some(got);
            }
            if single {
                let mut one = vec![0.0; c.d.cols];
                one[f] = v;
                let d = Data::from_rows(&[one], c.d.cols);
                let p = match w.call("predict", c, || b.predict(&d.m(), false)) {
                    Some(p) => p[0],
                    None => return,
                };
                if !((got - p).abs() <= tol) {
                    return w.fail("partial-dependence-single", format!("the model only uses feature {}: partial dependence {} at {} but prediction {}", f, got, v, p), c);
                }
                w.count("single-feature models compared with predictions", 1);
            }
        }
    }
    if m.splits() > 0 {
        w.nontrivial(m.hash() ^ k as u64);
        w.sample(|| c.brief());
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a model, trained or loaded; partial dependence of every feature at probe values, thresholds and the missing marker is recomputed; non-trivial when the model has a split; distinct by model contents and prediction iteration");
    ctx.stage("trained", 10000, 150000, 25.0, 250.0, |w, r| {
        let prof = Profile { evals: r.chance(0.1), max_cols: if r.chance(0.2) { 1 } else { 5 }, ..Default::default() };
        let c = gen_case(r, &prof);
        let (b, mut m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return w.count("overflowed models skipped", 1);
        }
        let b = pick_prefix(r, b, &mut m);
        check(w, r, &c, &b, &m);
    });
    ctx.stage("loaded", 10000, 150000, 20.0, 250.0, |w, r| {
        if let Some((c, b, mut m)) = synth_model(w, r) {
            let b = pick_prefix(r, b, &mut m);
            check(w, r, &c, &b, &m);
        }
    });
}
