//! C16: feature importance equals the split statistics of the trees.
use super::*;
use crate::synth::synth_model;
use forust_ml::gradientbooster::ImportanceMethod;
use fvm::case::*;
use fvm::gen::*;
use fvm::rng::Rng;
use std::collections::BTreeMap;

fn check(w: &mut W, r: &mut Rng, c: &Case, b: &GradientBooster, m: &Model) {
    // splits, total gain, total cover per feature
    let mut st: BTreeMap<usize, (f64, f64, f64)> = BTreeMap::new();
    for t in &m.trees {
        for n in t.nodes.iter().filter(|n| !n.is_leaf) {
            let e = st.entry(n.split_feature).or_insert((0.0, 0.0, 0.0));
            e.0 += 1.0;
            e.1 += n.split_gain as f64;
            e.2 += n.hessian_sum as f64;
        }
    }
    for k in 0..5 {
        let name = ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"][k];
        let method = || match k {
            0 => ImportanceMethod::Weight,
            1 => ImportanceMethod::Gain,
            2 => ImportanceMethod::Cover,
            3 => ImportanceMethod::TotalGain,
            _ => ImportanceMethod::TotalCover,
        };
        let want: BTreeMap<usize, f64> = st
            .iter()
            .map(|(f, (n, g, h))| {
                (
                    *f,
                    match k {
                        0 => *n,
                        1 => g / n,
                        2 => h / n,
                        3 => *g,
                        _ => *h,
                    },
                )
            })
            .collect();
        let count = st.values().map(|v| v.0).fold(1.0, f64::max);
        let rel = 2e-7 * (count + 4.0);
        let total: f64 = want.values().sum();
        for norm in [false, true] {
            let got = match w.call("calculate_feature_importance", c, || b.calculate_feature_importance(method(), norm)) {
                Some(v) => v,
                None => return,
            };
            let keys: BTreeMap<usize, f64> = got.iter().map(|(k, v)| (*k, *v as f64)).collect();
            if let Some(f) = keys.iter().find(|(f, v)| !want.contains_key(f) && **v != 0.0) {
                return w.fail("importance-unused", format!("{}: feature {} has importance {} without a split", name, f.0, f.1), c);
            }
            for (f, v) in &want {
                let g = match keys.get(f) {
                    Some(g) => *g,
                    None => return w.fail("importance-absent", format!("{}: feature {} with importance {} is absent", name, f, v), c),
                };
                if norm && total == 0.0 {
                    continue;
                }
                let (x, tol) = if norm { (v / total, rel * 4.0 + 2e-7 * (want.len() as f64)) } else { (*v, rel * v.abs() + 1e-30) };
                if !((g - x).abs() <= tol) {
                    return w.fail("importance", format!("{}{}: feature {} is {} but the trees give {}", name, if norm { " normalised" } else { "" }, f, g, x), c);
                }
                w.count("importance values compared", 1);
            }
            if norm && total > 0.0 {
                let s: f64 = keys.values().sum();
                if (s - 1.0).abs() > 1e-5 {
                    return w.fail("importance-sum", format!("{}: normalised importance sums to {}", name, s), c);
                }
            }
        }
    }
    let _ = r;
    if m.splits() > 0 {
        w.nontrivial(m.hash());
        w.sample(|| c.brief());
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a model, trained or loaded from a constructed file; all five methods, raw and normalised, are recomputed from the trees; non-trivial when the model has a split; distinct by model contents");
    ctx.stage("trained", 10000, 150000, 20.0, 200.0, |w, r| {
        let prof = Profile { evals: r.chance(0.3), iters: 12, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if !c.evals.is_empty() {
            c.p.esr = Some(r.range(1, 3));
        }
        let (b, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() || m.trees.iter().any(|t| t.nodes.iter().any(|n| !n.split_gain.is_finite())) {
            return w.count("overflowed models skipped", 1);
        }
        check(w, r, &c, &b, &m);
    });
    ctx.stage("loaded", 10000, 150000, 20.0, 200.0, |w, r| {
        if let Some((c, b, m)) = synth_model(w, r) {
            check(w, r, &c, &b, &m);
        }
    });
}
