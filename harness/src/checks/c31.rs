//! C31: trees see only the order of feature values; columns without information
//! and the sign or unit of a regression target change nothing else.
use super::*;
use fvm::case::*;
use fvm::explain::{cm_of, Cm};
use fvm::gen::*;
use fvm::rng::Rng;
use fvm::view::*;
use std::collections::BTreeMap;

/// `k` strictly increasing finite numbers, spaced in a way of the generator's choice.
fn ladder(r: &mut Rng, k: usize) -> Vec<f64> {
    let mut v: Vec<f64> = match r.below(9) {
        0 => (0..k).map(|i| i as f64).collect(),
        1 => (0..k).map(|i| -1e9 + 3.0 * i as f64).collect(),
        2 => {
            // neighbours in f64
            let a: f64 = r.pick(&[1.0, 1e-30, 12345.678]);
            (0..k).map(|i| f64::from_bits(a.to_bits() + i as u64)).collect()
        }
        3 => (0..k).map(|i| 1.0 + i as f64 * 1e-12).collect(),
        4 => {
            let s = r.pick(&[1.0, 0.01]);
            (0..k).map(|i| ((i as f64 - k as f64 * 0.5) * s).powi(3)).collect()
        }
        5 => (0..k).map(|i| 10f64.powf(-300.0 + 600.0 * i as f64 / k as f64)).collect(),
        6 => (0..k).map(|i| -(10f64.powf(300.0 - 600.0 * i as f64 / k as f64))).collect(),
        7 => (0..k).map(|i| f64::from_bits(1 + i as u64)).collect(),
        _ => {
            let mut a = r.frange(-50.0, 50.0);
            (0..k)
                .map(|_| {
                    a += 1e-6 + r.f() * r.pick(&[0.01, 1.0, 1000.0]);
                    a
                })
                .collect()
        }
    };
    v.iter_mut().for_each(|x| *x += 0.0);
    v.dedup();
    if v.len() < k || v.windows(2).any(|p| p[0] >= p[1]) {
        return (0..k).map(|i| i as f64 * 0.5).collect();
    }
    v
}

/// A strictly increasing map for every column, defined on every value in use.
struct Maps(Vec<BTreeMap<u64, f64>>);
fn key(v: f64) -> u64 {
    (v + 0.0).to_bits()
}
impl Maps {
    fn new(r: &mut Rng, sets: &[&Data], p: &Params) -> Maps {
        let some = r.chance(0.3);
        Maps(
            (0..sets[0].cols)
                .map(|j| {
                    let mut v: Vec<f64> = sets.iter().flat_map(|d| d.col(j).to_vec()).filter(|x| !p.is_missing(*x)).map(|x| x + 0.0).collect();
                    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    v.dedup();
                    if some && r.chance(0.5) {
                        return v.iter().map(|x| (key(*x), *x)).collect();
                    }
                    let mut to = ladder(r, v.len());
                    if to.iter().any(|x| p.is_missing(*x)) {
                        to = (0..v.len()).map(|i| 1e7 + i as f64 * 0.25).collect();
                    }
                    v.iter().zip(to).map(|(a, b)| (key(*a), b)).collect()
                })
                .collect(),
        )
    }
    fn data(&self, d: &Data, p: &Params) -> Data {
        let mut o = d.clone();
        for j in 0..d.cols {
            for i in 0..d.rows {
                let v = d.get(i, j);
                if !p.is_missing(v) {
                    o.x[j * d.rows + i] = self.0[j][&key(v)];
                }
            }
        }
        o
    }
}

fn beq(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) || (*x == 0.0 && *y == 0.0))
}

/// The tree with its nodes numbered from the root down, whatever the order of splits.
fn renumbered(t: &Tree) -> Tree {
    let (mut to, mut order, mut at) = (vec![0; t.nodes.len()], vec![0usize], 0);
    while at < order.len() && order.len() <= t.nodes.len() {
        let n = &t.nodes[order[at]];
        if !n.is_leaf {
            for c in n.children() {
                to[c] = order.len();
                order.push(c);
            }
        }
        at += 1;
    }
    let mut o = t.clone();
    o.nodes = order
        .iter()
        .map(|i| {
            let mut n = t.nodes[*i].clone();
            n.num = to[*i];
            if !n.is_leaf {
                (n.left_child, n.right_child, n.missing_node) = (to[n.left_child], to[n.right_child], to[n.missing_node]);
            }
            n
        })
        .collect();
    o
}

/// The same tree, with features renamed by `f`, thresholds by `s`, weights by `k`
/// and gains by `g`.
fn same_tree(a: &Tree, b: &Tree, f: impl Fn(usize) -> usize, s: impl Fn(usize, f64) -> Option<f64>, k: f32, g: f32) -> Result<(), String> {
    if a.nodes.len() != b.nodes.len() {
        return Err(format!("{} and {} nodes", a.nodes.len(), b.nodes.len()));
    }
    for (i, (x, y)) in a.nodes.iter().zip(&b.nodes).enumerate() {
        if x.is_leaf != y.is_leaf || x.hessian_sum.to_bits() != y.hessian_sum.to_bits() {
            return Err(format!("node {}: {:?} and {:?}", i, x, y));
        }
        if x.weight_value * k != y.weight_value && !(x.weight_value.is_nan() && y.weight_value.is_nan()) {
            return Err(format!("node {}: weights {} and {}", i, x.weight_value, y.weight_value));
        }
        if x.is_leaf {
            continue;
        }
        if x.split_gain * g != y.split_gain && !x.split_gain.is_nan() {
            return Err(format!("node {}: gains {} and {}", i, x.split_gain, y.split_gain));
        }
        if (x.missing_node, x.left_child, x.right_child) != (y.missing_node, y.left_child, y.right_child) || f(x.split_feature) != y.split_feature {
            return Err(format!("node {}: {:?} and {:?}", i, x, y));
        }
        match s(x.split_feature, x.split_value) {
            None => return Err(format!("node {}: feature {} splits at {:?}, which is no value of the training data", i, x.split_feature, x.split_value)),
            Some(v) if v != y.split_value => return Err(format!("node {}: splits at {:?}, not at {:?}", i, y.split_value, v)),
            _ => {}
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a pair of trainings that should give corresponding models: feature values replaced through strictly increasing maps, columns without information inserted, a regression target negated or rescaled by a power of two; non-trivial when the model has a split; distinct by model contents");
    ctx.stage("order", 9000, 200000, 30.0, 300.0, |w, r| {
        let prof = Profile { evals: r.chance(0.4), ..Default::default() };
        let mut c = gen_case(r, &prof);
        let probe = gen_probe(r, &c.d, &c.p, 25);
        for d in std::iter::once(&mut c.d).chain(c.evals.iter_mut()) {
            d.x.iter_mut().for_each(|v| *v += 0.0);
        }
        let mut sets: Vec<&Data> = vec![&c.d, &probe];
        sets.extend(c.evals.iter());
        let maps = Maps::new(r, &sets, &c.p);
        let mut o = c.clone();
        o.d = maps.data(&c.d, &c.p);
        o.evals = c.evals.iter().map(|e| maps.data(e, &c.p)).collect();
        let probe2 = maps.data(&probe, &c.p);
        let ((b1, m1), (b2, m2)) = match (fit_model(w, &c), fit_model(w, &o)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        if m1.trees.len() != m2.trees.len() || m1.base_score.to_bits() != m2.base_score.to_bits() || m1.best_iteration != m2.best_iteration {
            return w.fail("order", format!("{} and {} trees, base {} and {}, best iteration {:?} and {:?}", m1.trees.len(), m2.trees.len(), m1.base_score, m2.base_score, m1.best_iteration, m2.best_iteration), &c);
        }
        for (ti, (a, b)) in m1.trees.iter().zip(&m2.trees).enumerate() {
            if let Err(e) = same_tree(a, b, |f| f, |f, v| maps.0[f].get(&key(v)).copied(), 1.0, 1.0) {
                return w.fail("order", format!("re-expressed features change tree {}: {}", ti, e), &c);
            }
        }
        for par in [false, true] {
            let (p1, p2) = match (w.call("predict", &c, || b1.predict(&probe.m(), par)), w.call("predict", &o, || b2.predict(&probe2.m(), par))) {
                (Some(a), Some(b)) => (a, b),
                _ => return,
            };
            if !beq(&p1, &p2) {
                return w.fail("order", "re-expressed features change predictions".into(), &c);
            }
        }
        let cm = r.pick(&[Cm::Average, Cm::Weight, Cm::Branch, Cm::Midpoint, Cm::Mode, Cm::Shapley]);
        if m1.finite() && (cm != Cm::Shapley || c.d.cols <= 8) {
            let (p1, p2) = match (
                w.call("contributions", &c, || b1.predict_contributions(&probe.m(), cm_of(cm), true)),
                w.call("contributions", &o, || b2.predict_contributions(&probe2.m(), cm_of(cm), false)),
            ) {
                (Some(a), Some(b)) => (a, b),
                _ => return,
            };
            if !beq(&p1, &p2) {
                return w.fail("order", format!("re-expressed features change {:?} contributions", cm), &c);
            }
            w.count("contribution batches compared", 1);
        }
        w.count("re-expressed trainings compared", 1);
        w.count("splits at mapped values", m1.splits() as u64);
        if m1.splits() > 0 {
            w.nontrivial(m1.hash());
            w.sample(|| c.brief());
        }
    });
    ctx.stage("columns", 7000, 150000, 25.0, 250.0, |w, r| {
        let prof = Profile { colsample: false, evals: r.chance(0.3), ..Default::default() };
        let c = gen_case(r, &prof);
        let mut o = c.clone();
        // position of every old column among the new ones
        let extra = if r.chance(0.05) { r.range(200, 300) } else { r.range(1, 4) };
        let total = c.d.cols + extra;
        let mut is_new = vec![false; total];
        match r.below(3) {
            0 => is_new[c.d.cols..].iter_mut().for_each(|v| *v = true),
            1 => is_new[..extra].iter_mut().for_each(|v| *v = true),
            _ => {
                is_new[c.d.cols..].iter_mut().for_each(|v| *v = true);
                r.shuffle(&mut is_new);
            }
        }
        let kinds: Vec<f64> = (0..extra).map(|_| r.pick(&[f64::NAN, 0.0, 1.0, -5.5, 1e30])).collect();
        let widen = |d: &Data, own: bool, r: &mut Rng| {
            let mut n = Data { rows: d.rows, cols: total, x: vec![], y: d.y.clone(), w: d.w.clone() };
            let (mut old, mut new) = (0, 0);
            for j in 0..total {
                if is_new[j] {
                    let k = kinds[new];
                    new += 1;
                    let k = if k.is_nan() || c.p.is_missing(k) { c.p.missing } else { k };
                    // data that is not trained on may hold anything there
                    n.x.extend((0..d.rows).map(|_| if own || r.chance(0.5) { k } else { r.pick(&[c.p.missing, 3.0, -2.0, 0.5]) }));
                } else {
                    n.x.extend_from_slice(d.col(old));
                    old += 1;
                }
            }
            n
        };
        o.d = widen(&c.d, true, r);
        o.evals = c.evals.iter().map(|e| widen(e, false, r)).collect();
        let at: Vec<usize> = (0..total).filter(|j| !is_new[*j]).collect();
        o.p.mono = c.p.mono.as_ref().map(|m| m.iter().map(|(k, v)| (at.get(*k).copied().unwrap_or(*k + extra), *v)).collect());
        o.p.terminate = c.p.terminate.iter().map(|k| at.get(*k).copied().unwrap_or(*k + extra)).collect();
        if let Some(m) = o.p.mono.as_mut() {
            for (j, _) in is_new.iter().enumerate().filter(|(_, n)| **n) {
                if r.chance(0.3) {
                    m.insert(j, r.pick(&[-1, 0, 1]));
                }
            }
        }
        let probe = gen_probe(r, &c.d, &c.p, 25);
        let probe2 = widen(&probe, false, r);
        let ((b1, m1), (b2, m2)) = match (fit_model(w, &c), fit_model(w, &o)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        if m1.trees.len() != m2.trees.len() || m1.base_score.to_bits() != m2.base_score.to_bits() || m1.best_iteration != m2.best_iteration {
            return w.fail("columns", format!("{} and {} trees, base {} and {}, best iteration {:?} and {:?}", m1.trees.len(), m2.trees.len(), m1.base_score, m2.base_score, m1.best_iteration, m2.best_iteration), &c);
        }
        for (ti, (a, b)) in m1.trees.iter().zip(&m2.trees).enumerate() {
            if let Err(e) = same_tree(a, b, |f| at[f], |_, v| Some(v), 1.0, 1.0) {
                return w.fail("columns", format!("{} columns without information at {:?} change tree {}: {}", extra, (0..total).filter(|j| is_new[*j]).take(8).collect::<Vec<_>>(), ti, e), &o);
            }
        }
        for par in [false, true] {
            let (p1, p2) = match (w.call("predict", &c, || b1.predict(&probe.m(), par)), w.call("predict", &o, || b2.predict(&probe2.m(), par))) {
                (Some(a), Some(b)) => (a, b),
                _ => return,
            };
            if !beq(&p1, &p2) {
                return w.fail("columns", "a column the model never saw vary changes predictions".into(), &o);
            }
        }
        w.count("trainings with columns without information compared", 1);
        if m1.splits() > 0 {
            w.nontrivial(m1.hash());
        }
    });
    ctx.stage("target", 9000, 200000, 25.0, 250.0, |w, r| {
        let prof = Profile { obj: Some(Obj::Sq), evals: r.chance(0.4), extreme: false, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if c.p.metric != Some(Met::Rmse) {
            c.p.metric = Some(Met::Rmse);
        }
        let mirror = r.chance(0.5);
        if mirror && c.p.cmb {
            // Which of two equal children is moved to bound the parent depends on the side it lies.
            c.p.force = false;
        }
        if mirror {
            // Nodes of weight zero tie in gain, and the sign of that zero may order them:
            // the order in which nodes were split is not compared.
            c.p.max_leaves = usize::MAX;
        }
        let unit = if mirror && r.chance(0.5) { 1.0 } else { 2f64.powi(r.pick(&[-7, -2, -1, 1, 3, 9])) };
        let f = if mirror { -unit } else { unit };
        let mut o = c.clone();
        for d in std::iter::once(&mut o.d).chain(o.evals.iter_mut()) {
            d.y.iter_mut().for_each(|v| *v *= f);
        }
        o.p.base_score *= f;
        o.p.l1 *= unit as f32;
        o.p.mds *= unit as f32;
        o.p.gamma *= (unit * unit) as f32;
        if mirror {
            o.p.mono = c.p.mono.as_ref().map(|m| m.iter().map(|(k, v)| (*k, -v)).collect());
        }
        let ((b1, m1), (b2, m2)) = match (fit_model(w, &c), fit_model(w, &o)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let safe = |v: f32| v == 0.0 || (v.abs() > 1e-25 && v.abs() < 1e25);
        let tame = |m: &Model| m.trees.iter().all(|t| t.nodes.iter().all(|n| safe(n.split_gain) && safe(n.hessian_sum) && safe(n.weight_value)));
        if !tame(&m1) || !tame(&m2) {
            return w.count("models outside the exact range skipped", 1);
        }
        if m1.trees.len() != m2.trees.len() || m1.base_score * f != m2.base_score || m1.best_iteration != m2.best_iteration {
            return w.fail("target", format!("target times {}: {} and {} trees, base {} and {}, best iteration {:?} and {:?}", f, m1.trees.len(), m2.trees.len(), m1.base_score, m2.base_score, m1.best_iteration, m2.best_iteration), &c);
        }
        let plain = |t: &Tree| if mirror { renumbered(t) } else { t.clone() };
        for (ti, (a, b)) in m1.trees.iter().zip(&m2.trees).enumerate() {
            if let Err(e) = same_tree(&plain(a), &plain(b), |f| f, |_, v| Some(v), f as f32, (unit * unit) as f32) {
                return w.fail("target", format!("target times {}: tree {} differs: {}", f, ti, e), &c);
            }
        }
        let probe = gen_probe(r, &c.d, &c.p, 25);
        let (p1, p2) = match (w.call("predict", &c, || b1.predict(&probe.m(), true)), w.call("predict", &o, || b2.predict(&probe.m(), false))) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        if !beq(&p1.iter().map(|v| v * f).collect::<Vec<_>>(), &p2) {
            return w.fail("target", format!("target times {}: predictions differ", f), &c);
        }
        w.count(if mirror { "mirrored trainings compared" } else { "rescaled trainings compared" }, 1);
        if m1.splits() > 0 {
            w.nontrivial(m1.hash());
        }
    });
}
