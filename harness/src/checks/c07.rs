//! C07: missing values are handled as configured.
use super::*;
use crate::checks::c03::check_weights;
use fvm::analysis::Role;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::view::*;

fn shape(w: &mut W, c: &Case, m: &Model) {
    let p = &c.p;
    let no_missing: Vec<bool> = (0..c.d.cols).map(|j| !c.d.col(j).iter().any(|v| p.is_missing(*v))).collect();
    for (ti, t) in m.trees.iter().enumerate() {
        for (i, n) in t.nodes.iter().enumerate() {
            if n.is_leaf {
                continue;
            }
            if n.ternary() != p.cmb {
                return w.fail("branch-shape", format!("tree {} node {}: create_missing_branch={} but children are {:?}", ti, i, p.cmb, n.children()), c);
            }
            if p.cmb {
                let mn = &t.nodes[n.missing_node];
                if !mn.is_leaf && !p.ams {
                    return w.fail("missing-split", format!("tree {} node {}: the missing branch is split although allow_missing_splits is off", ti, i), c);
                }
                if !mn.is_leaf && p.terminate.contains(&n.split_feature) {
                    return w.fail("terminate", format!("tree {} node {}: the missing branch of terminate_missing_features {} is split", ti, i, n.split_feature), c);
                }
                w.count("missing branches observed", 1);
                if !mn.is_leaf {
                    w.count("missing branches split further", 1);
                }
            } else {
                if no_missing[n.split_feature] && n.missing_node != n.right_child {
                    return w.fail("default-direction", format!("tree {} node {}: feature {} has no missing training values but its missing values go left", ti, i, n.split_feature), c);
                }
                w.count(if n.missing_node == n.left_child { "splits sending missing left" } else { "splits sending missing right" }, 1);
            }
        }
    }
}

/// Without allow_missing_splits both sides hold enough non-missing rows.
fn separation(w: &mut W, c: &Case, m: &Model) {
    let p = &c.p;
    let st = match replay(m, c) {
        Ok(s) => s,
        Err(e) => return w.fail("malformed-tree", e, c),
    };
    for (ti, (t, s)) in m.trees.iter().zip(&st).enumerate() {
        for (i, n) in t.nodes.iter().enumerate() {
            if n.is_leaf {
                continue;
            }
            for k in [n.left_child, n.right_child] {
                if !s.st[k].rows.iter().any(|r| !p.is_missing(c.d.get(*r, n.split_feature))) {
                    return w.fail("missing-only-split", format!("tree {} node {} (feature {}): allow_missing_splits is off but child {} holds no non-missing row", ti, i, n.split_feature, k), c);
                }
                let h: f64 = s.st[k].rows.iter().filter(|r| !p.is_missing(c.d.get(**r, n.split_feature))).map(|r| s.hess[*r] as f64).sum();
                if h < p.mlw as f64 * (1.0 - 1e-6) - s.tol_h {
                    return w.fail("missing-only-split", format!("tree {} node {} (feature {}): allow_missing_splits is off but child {} holds non-missing weight {} < min_leaf_weight {}", ti, i, n.split_feature, k, h, p.mlw), c);
                }
                w.count("sides with non-missing rows confirmed", 1);
            }
        }
    }
}

/// AverageLeafWeight: missing leaves and split nodes are averages.
fn averages(w: &mut W, c: &Case, m: &Model) {
    for (ti, t) in m.trees.iter().enumerate() {
        let maxw = t.nodes.iter().map(|n| n.weight_value.abs() as f64).fold(0.0, f64::max);
        for (i, n) in t.nodes.iter().enumerate() {
            if n.is_leaf {
                continue;
            }
            let (l, r, k) = (&t.nodes[n.left_child], &t.nodes[n.right_child], &t.nodes[n.missing_node]);
            let (hl, hr) = (l.hessian_sum as f64, r.hessian_sum as f64);
            let mut num = l.weight_value as f64 * hl + r.weight_value as f64 * hr;
            let mut den = hl + hr;
            if !k.is_leaf {
                num += k.weight_value as f64 * k.hessian_sum as f64;
                den += k.hessian_sum as f64;
            }
            if den <= 1e-6 {
                continue;
            }
            let want = num / den;
            let tol = 1e-5 * maxw + 1e-12;
            if (n.weight_value as f64 - want).abs() > tol {
                return w.fail("average-node", format!("tree {} node {} has weight {} but its branches average {}", ti, i, n.weight_value, want), c);
            }
            if k.is_leaf && (k.weight_value as f64 - want).abs() > tol {
                return w.fail("average-missing", format!("tree {} missing leaf {} has weight {} but its siblings average {}", ti, k.num, k.weight_value, want), c);
            }
            w.count("averaged missing leaves compared", 1);
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training set with missing values + parameters; non-trivial when at least one split was made; distinct by model contents");
    ctx.stage("treatment", 20000, 300000, 20.0, 250.0, |w, r| {
        let prof = Profile { sampling: false, exact: r.chance(0.4), ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.cmb = r.chance(0.75);
        if !c.p.cmb && r.chance(0.3) {
            // nothing but the rule itself keeps missing values from being split off
            c.p.ams = false;
            c.p.mlw = 0.0;
        }
        c.sanitise();
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return w.count("overflowed models skipped", 1);
        }
        shape(w, &c, &m);
        if c.p.cmb {
            check_weights(w, &c, &m, &[Role::Missing]);
            if c.p.mnt == Mnt::AvgLeaf {
                averages(w, &c, &m);
            }
        } else if !c.p.ams {
            separation(w, &c, &m);
        }
        if m.splits() > 0 {
            w.nontrivial(m.hash());
            w.sample(|| c.brief());
        }
    });
    ctx.stage("sampled", 6000, 80000, 8.0, 80.0, |w, r| {
        let prof = Profile::default();
        let mut c = gen_case(r, &prof);
        c.p.samp = r.pick(&[Samp::Random, Samp::Goss]);
        c.sanitise();
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        shape(w, &c, &m);
        if m.splits() > 0 {
            w.nontrivial(m.hash());
        }
    });
    ctx.stage("marker", 12000, 200000, 20.0, 200.0, |w, r| {
        let prof = Profile { evals: r.chance(0.2), ..Default::default() };
        let mut c = gen_case(r, &prof);
        let np = r.range(1, 40);
        let mut probe = gen_probe(r, &c.d, &c.p, np);
        // a marker that is nowhere in the data
        let all: Vec<f64> = c.d.x.iter().chain(&probe.x).chain(c.evals.iter().flat_map(|e| e.x.iter())).copied().collect();
        let cands: Vec<f64> = [f64::NAN, -999.0, 0.0, 1.0, -1.0, 1e308, -1e308, f64::INFINITY, f64::NEG_INFINITY, 0.123456789, 5e-324, f64::MAX, f64::MIN]
            .into_iter()
            .filter(|m| !all.iter().any(|v| v == m) && !(m.is_nan() && c.p.missing.is_nan()))
            .collect();
        if cands.is_empty() {
            return;
        }
        let to = r.pick(&cands);
        let (b1, m1) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let p1 = match w.call("predict", &c, || b1.predict(&probe.m(), false)) {
            Some(v) => v,
            None => return,
        };
        let from = c.p.clone();
        let sub = |x: &mut Vec<f64>| {
            for v in x.iter_mut() {
                if from.is_missing(*v) {
                    *v = to;
                }
            }
        };
        let orig = c.clone();
        sub(&mut c.d.x);
        for e in c.evals.iter_mut() {
            sub(&mut e.x);
        }
        sub(&mut probe.x);
        c.p.missing = to;
        let (b2, m2) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let p2 = match w.call("predict", &c, || b2.predict(&probe.m(), true)) {
            Some(v) => v,
            None => return,
        };
        if !m1.same_trees(&m2) {
            return w.fail("marker-trees", format!("trees differ between missing={} and missing={}", from.missing, to), &orig);
        }
        if p1.iter().zip(&p2).any(|(a, b)| a.to_bits() != b.to_bits() && !(a.is_nan() && b.is_nan())) {
            return w.fail("marker-predictions", format!("predictions differ between missing={} and missing={}", from.missing, to), &orig);
        }
        w.count("marker substitutions compared", 1);
        if m1.splits() > 0 && orig.d.x.iter().any(|v| from.is_missing(*v)) {
            w.nontrivial(m1.hash());
        }
    });
    // With a number for the marker NaN is not a missing value: it is refused,
    // never taken for one.
    ctx.stage("nan-is-not-the-marker", 1500, 20000, 6.0, 60.0, |w, r| {
        let n = r.range(8, 60);
        let marker = r.pick(&[-999.0, 0.0, -1.0, 1e9, -1e12, f64::MAX, 1e-3, 7.0]);
        let p = Params { obj: Obj::Sq, iterations: 2, max_depth: 2, mlw: 0.5, missing: marker, cmb: r.chance(0.5), ams: r.chance(0.5), parallel: r.chance(0.5), base_score: 0.5, ..Default::default() };
        let x: Vec<f64> = (0..n).map(|_| if r.chance(0.2) { marker } else { r.range(10, 20) as f64 }).collect();
        let y: Vec<f64> = x.iter().map(|v| if *v > 14.5 { 4.0 } else { 0.0 }).collect();
        let c = Case { label: "NaN beside a numeric marker".into(), p, d: Data { rows: n, cols: 1, x, y, w: vec![1.0; n] }, evals: vec![] };
        let (b, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let mut bad = c.clone();
        let i = r.below(n);
        bad.d.x[i] = f64::NAN;
        if let Ok(Ok(_)) = sut(|| bad.train()) {
            return w.fail("nan-taken", format!("training takes a NaN in row {} for missing although the marker is {}", i, marker), &bad);
        }
        w.count("trainings with NaN beside a numeric marker refused", 1);
        if m.trees.iter().any(|t| !t.nodes[0].is_leaf) {
            let par = r.chance(0.5);
            if let Ok(v) = sut(|| b.predict(&Data { rows: 1, cols: 1, x: vec![f64::NAN], y: vec![0.0], w: vec![1.0] }.m(), par)) {
                return w.fail("nan-taken", format!("NaN is predicted as {:?} although the marker is {}", v, marker), &c);
            }
            w.count("predictions for NaN beside a numeric marker refused", 1);
            w.nontrivial(m.hash() ^ marker.to_bits());
        }
    });
}
