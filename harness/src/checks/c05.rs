//! C05: growth limits are never exceeded, and nodes are expanded in the order
//! of the growth policy.
use super::*;
use fvm::analysis::*;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::search::*;
use fvm::view::*;

fn limits(w: &mut W, c: &Case, m: &Model) -> bool {
    let p = &c.p;
    if m.trees.len() > p.iterations || (c.evals.is_empty() && m.trees.len() != p.iterations) {
        w.fail("iterations", format!("{} trees for iterations={}", m.trees.len(), p.iterations), c);
        return false;
    }
    let max_cols = ((c.d.cols as f64) * p.colsample).floor() as usize;
    for (ti, t) in m.trees.iter().enumerate() {
        if let Err(e) = t.well_formed(c.d.cols) {
            w.fail("malformed-tree", format!("tree {}: {}", ti, e), c);
            return false;
        }
        let depth = t.nodes.iter().map(|n| n.depth).max().unwrap_or(0);
        if depth > p.max_depth {
            w.fail("max-depth", format!("tree {} has depth {} > max_depth {}", ti, depth, p.max_depth), c);
            return false;
        }
        if t.leaves() > p.max_leaves.max(1) {
            w.fail("max-leaves", format!("tree {} has {} leaves > max_leaves {}", ti, t.leaves(), p.max_leaves), c);
            return false;
        }
        if used_features(t).len() > max_cols {
            w.fail("colsample", format!("tree {} uses {} features, colsample_bytree {} of {} columns allows {}", ti, used_features(t).len(), p.colsample, c.d.cols, max_cols), c);
            return false;
        }
        let cap = p.mds as f64 * p.lr as f64 * (1.0 + 1e-6);
        for (i, n) in t.nodes.iter().enumerate() {
            if p.mds > 0.0 && (n.weight_value as f64).abs() > cap {
                w.fail("max-delta-step", format!("tree {} node {} has weight {} beyond {} (max_delta_step {} x learning rate {})", ti, i, n.weight_value, cap, p.mds, p.lr), c);
                return false;
            }
            if n.is_leaf {
                continue;
            }
            for k in [n.left_child, n.right_child] {
                let h = t.nodes[k].hessian_sum;
                if (h as f64) < p.mlw as f64 * (1.0 - 1e-6) {
                    w.fail("min-leaf-weight", format!("tree {} node {} (child of {}) holds {} < min_leaf_weight {}", ti, k, i, h, p.mlw), c);
                    return false;
                }
            }
            if !((n.split_gain as f64) > p.gamma as f64) {
                w.fail("gamma", format!("tree {} node {} is split with gain {} not above gamma {}", ti, i, n.split_gain, p.gamma), c);
                return false;
            }
            w.count("splits checked against every limit", 1);
        }
        if t.leaves() + if p.cmb { 2 } else { 1 } > p.max_leaves {
            w.count("trees stopped by max_leaves", 1);
        }
        if depth == p.max_depth {
            w.count("trees reaching max_depth", 1);
        }
    }
    true
}

/// Order of expansion, from the numbers of the children.
fn order(w: &mut W, c: &Case, m: &Model) {
    let an = match analyse(m, c) {
        Ok(a) => a,
        Err(e) => return w.fail("malformed-tree", e, c),
    };
    let p = &c.p;
    let th = thresholds(m, c);
    let all_cols = p.colsample == 1.0;
    for (ti, (t, a)) in m.trees.iter().zip(&an).enumerate() {
        let mut ex: Vec<usize> = (0..t.nodes.len()).filter(|i| !t.nodes[*i].is_leaf).collect();
        ex.sort_by_key(|i| t.nodes[*i].children().into_iter().min().unwrap());
        // Only models that number nodes in creation order are comparable.
        if ex.iter().any(|i| t.nodes[*i].children().iter().any(|k| k < i)) {
            continue;
        }
        match p.grow {
            Grow::Depth => {
                for q in ex.windows(2) {
                    if t.nodes[q[0]].depth > t.nodes[q[1]].depth {
                        return w.fail("depth-order", format!("tree {}: node {} at depth {} was split before node {} at depth {}", ti, q[0], t.nodes[q[0]].depth, q[1], t.nodes[q[1]].depth), c);
                    }
                    w.count("depth-wise expansions ordered", 1);
                }
                if !all_cols || p.force {
                    continue;
                }
                let deepest = ex.iter().map(|i| t.nodes[*i].depth).max().unwrap_or(0);
                for i in 0..t.nodes.len() {
                    if t.nodes[i].is_leaf && t.nodes[i].depth < deepest && growable(c, t, a, i) {
                        if let Some(b) = best(c, t, a, i, &th) {
                            if b.gain - b.err > p.gamma as f64 * (1.0 + 1e-6) + 1e-6 {
                                return w.fail("depth-order", format!("tree {}: node {} at depth {} was left although it can be split (feature {} < {}, gain {}) while nodes at depth {} were split", ti, i, t.nodes[i].depth, b.feature, b.value, b.gain, deepest), c);
                            }
                        }
                    }
                }
            }
            Grow::Loss => {
                for (k, i) in ex.iter().enumerate() {
                    let (gi, ei) = match own_gain(p, a, *i) {
                        Some(v) => v,
                        None => continue,
                    };
                    let first_child = t.nodes[*i].children().into_iter().min().unwrap();
                    // open at that time and expanded later
                    for j in ex.iter().skip(k + 1) {
                        if *j >= first_child {
                            continue;
                        }
                        if let Some((gj, ej)) = own_gain(p, a, *j) {
                            if gj - ej > gi + ei + 1e-5 * gi.abs() + 1e-6 {
                                return w.fail("loss-order", format!("tree {}: node {} (loss reduction {}) was expanded before the open node {} (loss reduction {})", ti, i, gi, j, gj), c);
                            }
                            w.count("loss-guided expansion pairs ordered", 1);
                        }
                    }
                }
                if !all_cols || p.force || ex.is_empty() {
                    continue;
                }
                // Leaves left behind when max_leaves ended the growth.
                let last = *ex.last().unwrap();
                let first_child = t.nodes[last].children().into_iter().min().unwrap();
                if let Some((gl, el)) = own_gain(p, a, last) {
                    for i in 0..first_child {
                        if !t.nodes[i].is_leaf || !growable(c, t, a, i) {
                            continue;
                        }
                        if let (Some((gi, ei)), Some(b)) = (own_gain(p, a, i), best(c, t, a, i, &th)) {
                            if gi - ei > gl + el + 1e-5 * gl.abs() + 1e-6 && b.gain - b.err > p.gamma as f64 * (1.0 + 1e-6) + 1e-6 {
                                return w.fail("loss-order", format!("tree {}: node {} (loss reduction {}) was left although it can be split (gain {}) while node {} (loss reduction {}) was expanded", ti, i, gi, b.gain, last, gl), c);
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training set + parameters (all sampling modes); every tree checked against every limit, expansion order recovered from node numbers; non-trivial when at least one split was made; distinct by model contents");
    ctx.stage("limits", 25000, 400000, 20.0, 250.0, |w, r| {
        let prof = Profile { evals: r.chance(0.1), iters: 8, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if r.chance(0.15) {
            c.p.mlw = 0.0;
        }
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if limits(w, &c, &m) && m.splits() > 0 {
            w.nontrivial(m.hash());
            w.sample(|| c.brief());
        }
    });
    ctx.stage("order", 20000, 300000, 20.0, 250.0, |w, r| {
        let prof = Profile { exact: r.chance(0.5), sampling: false, extreme: false, max_rows: 250, iters: 4, ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.max_depth = r.pick(&[2, 3, 4, 6, 10]);
        c.p.max_leaves = r.pick(&[3, 4, 5, 6, 7, 9, 12, 20, usize::MAX]);
        c.p.mlw = r.pick(&[0.5, 1.0, 2.0]);
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return w.count("overflowed models skipped", 1);
        }
        if limits(w, &c, &m) {
            order(w, &c, &m);
            if m.splits() > 1 {
                w.nontrivial(m.hash());
            }
        }
    });
}
