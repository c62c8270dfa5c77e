//! C12: each contribution method returns its documented value.
use super::*;
use crate::checks::c11::pick_prefix;
use crate::synth::{chain_model, synth_model};
use fvm::case::*;
use fvm::explain::*;
use fvm::gen::*;
use fvm::rng::Rng;
use fvm::view::*;

fn check(w: &mut W, r: &mut Rng, c: &Case, b: &GradientBooster, m: &Model) {
    let n = r.range(1, 12);
    let probe = gen_probe(r, &c.d, &c.p, n);
    let k = m.n_pred_trees();
    let cols = c.d.cols;
    let sc = scale(m, k) + m.base_score.abs();
    let consistent = m.trees[..k].iter().all(|t| covers_consistent(t, 2e-5));
    let depth = m.trees[..k].iter().flat_map(|t| t.nodes.iter().map(|n| n.depth)).max().unwrap_or(0);
    let few = m.trees[..k].iter().all(|t| used_features(t).len() <= 12 && t.nodes.len() <= 4000 >> used_features(t).len().saturating_sub(5));
    let pairs = m.trees[..k].iter().all(|t| {
        t.nodes.iter().all(|n| n.is_leaf || t.nodes[n.left_child].hessian_sum as f64 + t.nodes[n.right_child].hessian_sum as f64 > 0.0)
    });
    for method in ALL_CM {
        match method {
            Cm::Prob if c.p.obj != Obj::Log => continue,
            Cm::Average if !consistent => continue,
            Cm::Shapley if !consistent || depth > 12 || !few => continue,
            Cm::Midpoint if !pairs => continue,
            _ => {}
        }
        let got = match w.call("predict_contributions", c, || b.predict_contributions(&probe.m(), cm_of(method), r.chance(0.5))) {
            Some(v) => v,
            None => return,
        };
        if got.len() != n * (cols + 1) {
            return w.fail("contributions-shape", format!("{:?}: {} entries for {} rows and {} columns", method, got.len(), n, cols), c);
        }
        let tol = match method {
            // unwinding in single precision
            Cm::Shapley if depth > 7 => 1e-3 * sc,
            Cm::Shapley => 1e-4 * sc,
            Cm::Average => 3e-5 * sc,
            Cm::Midpoint | Cm::Branch | Cm::Mode => 3e-6 * sc,
            Cm::Prob => 1e-9,
            Cm::Weight => 1e-11 * sc,
        } + 1e-12;
        for i in 0..n {
            let row = probe.row(i);
            let want = match contributions(m, &c.p, &row, method, k) {
                Ok(v) => v,
                Err(e) => return w.fail("malformed-tree", e, c),
            };
            for j in 0..=cols {
                let g = got[i * (cols + 1) + j];
                if !((g - want[j]).abs() <= tol) {
                    return w.fail(
                        "contribution",
                        format!("{:?}: row {} {:?} column {} is {} but the definition gives {} (tolerance {:e}, all: {:?} against {:?})", method, i, row, j, g, want[j], tol, &got[i * (cols + 1)..(i + 1) * (cols + 1)], want),
                        c,
                    );
                }
            }
            w.count(
                match method {
                    Cm::Shapley => "Shapley rows compared",
                    Cm::Average => "Average rows compared",
                    Cm::Midpoint => "MidpointDifference rows compared",
                    Cm::Branch => "BranchDifference rows compared",
                    Cm::Mode => "ModeDifference rows compared",
                    Cm::Prob => "ProbabilityChange rows compared",
                    Cm::Weight => "Weight rows compared",
                },
                1,
            );
        }
    }
    if m.splits() > 0 {
        w.nontrivial(m.hash() ^ k as u64);
        w.sample(|| c.brief());
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a model (trained or loaded from a constructed file) and a batch of probe rows; every entry of every method is compared with its definition (Shapley by enumerating coalitions); non-trivial when the model has a split; distinct by model contents and prediction iteration");
    ctx.stage("trained", 6000, 100000, 25.0, 300.0, |w, r| {
        let prof = Profile { evals: r.chance(0.1), ..Default::default() };
        let mut c = gen_case(r, &prof);
        if r.chance(0.7) {
            c.p.max_depth = c.p.max_depth.min(5);
        }
        let (b, mut m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return w.count("overflowed models skipped", 1);
        }
        let b = pick_prefix(r, b, &mut m);
        check(w, r, &c, &b, &m);
    });
    ctx.stage("loaded", 8000, 150000, 20.0, 300.0, |w, r| {
        if let Some((c, b, mut m)) = synth_model(w, r) {
            let b = pick_prefix(r, b, &mut m);
            check(w, r, &c, &b, &m);
        }
    });
    ctx.stage("long-paths", 1000, 20000, 15.0, 300.0, |w, r| {
        if let Some((c, b, mut m)) = chain_model(w, r) {
            let b = pick_prefix(r, b, &mut m);
            check(w, r, &c, &b, &m);
            w.count("models with paths over six or more features", 1);
        }
    });
}
