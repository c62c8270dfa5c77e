//! C32: settings act only where they apply; more iterations, a deeper limit or
//! more leaves only extend a model; the learning rate only scales its weights.
use super::*;
use fvm::case::*;
use fvm::gen::*;
use fvm::rng::Rng;
use fvm::view::*;
use serde_json::Value;

fn history(b: &forust_ml::GradientBooster) -> Vec<Vec<f64>> {
    match &b.evaluation_history {
        None => vec![],
        Some(h) => (0..h.rows).map(|i| (0..h.cols).map(|j| h.data[i * h.cols + j]).collect()).collect(),
    }
}

fn same_rows(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_bits(x, y))
}

fn distinct(d: &Data, p: &Params) -> usize {
    (0..d.cols)
        .map(|j| {
            let mut v: Vec<f64> = d.col(j).iter().filter(|x| !p.is_missing(**x)).map(|x| x + 0.0).collect();
            v.sort_by(|a, b| a.partial_cmp(b).unwrap());
            v.dedup();
            v.len()
        })
        .max()
        .unwrap_or(0)
}

/// One change of settings that must leave the trees as they are.
fn inert(r: &mut Rng, c: &Case, m: &Model, o: &mut Case) -> Option<&'static str> {
    let p = &c.p;
    let cols = c.d.cols;
    let deepest = m.trees.iter().flat_map(|t| t.nodes.iter().map(|n| n.depth)).max().unwrap_or(0);
    let widest = m.trees.iter().map(|t| t.leaves()).max().unwrap_or(0);
    Some(match r.below(20) {
        0 if p.samp != Samp::Random => {
            o.p.subsample = r.frange(0.01, 1.0) as f32;
            "subsample without random sampling"
        }
        1 if p.samp != Samp::Goss => {
            o.p.top_rate = r.frange(0.01, 0.5);
            o.p.other_rate = r.frange(0.01, 0.5);
            "goss rates without goss"
        }
        2 if p.samp == Samp::None && p.colsample == 1.0 => {
            o.p.seed = r.u64();
            "seed without sampling"
        }
        3 if c.evals.is_empty() => {
            o.p.esr = r.pick(&[None, Some(1), Some(2), Some(50)]);
            o.p.metric = r.pick(&[None, Some(Met::Auc), Some(Met::Log), Some(Met::Rmse), Some(Met::Rmsle)]);
            "early stopping and metric without evaluation data"
        }
        4 if p.esr.is_none() => {
            o.p.metric = r.pick(&[None, Some(Met::Auc), Some(Met::Log), Some(Met::Rmse), Some(Met::Rmsle)]);
            "metric without early stopping"
        }
        5 if p.esr.is_none() => {
            if c.evals.is_empty() || r.chance(0.5) {
                let n = r.range(1, 40);
                o.evals.push(gen_probe(r, &c.d, p, n));
            } else {
                o.evals.pop();
            }
            "evaluation data without early stopping"
        }
        6 if !c.evals.is_empty() => {
            let n = r.range(1, 40);
            let at = r.below(o.evals.len());
            o.evals.insert(at, gen_probe(r, &c.d, p, n));
            "evaluation data before the last"
        }
        7 if p.esr.is_none() => {
            o.p.esr = Some(p.iterations + r.range(0, 3));
            "more patience than iterations"
        }
        8 => {
            o.p.log_iterations = r.pick(&[0, 1, 2, 100]);
            "log_iterations"
        }
        9 if !p.cmb => {
            o.p.mnt = r.pick(&[Mnt::None, Mnt::Parent, Mnt::AvgLeaf, Mnt::AvgNode]);
            o.p.terminate = (0..cols).filter(|_| r.chance(0.5)).collect();
            "missing branch settings without a missing branch"
        }
        10 if p.cmb && !p.ams => {
            o.p.terminate = (0..cols).filter(|_| r.chance(0.5)).collect();
            "terminated features without missing splits"
        }
        11 => {
            for _ in 0..r.range(1, 3) {
                o.p.terminate.insert(cols + r.range(0, 50));
            }
            "terminated features that are not in the data"
        }
        12 => {
            let mut m = p.mono.clone().unwrap_or_default();
            for _ in 0..r.range(0, 3) {
                m.insert(cols + r.range(0, 50), r.pick(&[-1, 0, 1]));
            }
            o.p.mono = Some(m);
            "constraints on features that are not in the data"
        }
        13 => {
            let mut m = p.mono.clone().unwrap_or_default();
            for j in 0..cols {
                if r.chance(0.5) {
                    m.entry(j).or_insert(0);
                } else if m.get(&j) == Some(&0) {
                    m.remove(&j);
                }
            }
            if m.is_empty() && r.chance(0.5) {
                o.p.mono = None;
            } else {
                o.p.mono = Some(m);
            }
            "unconstrained entries"
        }
        14 if p.init_base => {
            o.p.base_score = r.frange(-3.0, 3.0);
            "base_score when it is initialised"
        }
        15 if distinct(&c.d, p) <= p.nbins as usize => {
            let d = distinct(&c.d, p).max(1);
            o.p.nbins = r.pick(&[d as u16, d as u16 + 1, p.nbins.saturating_add(1), 500, 2000]).max(d as u16);
            "bins beyond the distinct values"
        }
        16 if c.evals.iter().chain(std::iter::once(&c.d)).all(|d| d.x.iter().all(|v| !p.is_missing(*v) && !v.is_nan())) => {
            let all: Vec<f64> = c.evals.iter().chain(std::iter::once(&c.d)).flat_map(|d| d.x.clone()).collect();
            let cands: Vec<f64> = [f64::NAN, -999.0, 0.0, 1.0, 7.25, -1e30, 0.1].into_iter().filter(|m| m.is_nan() || !all.contains(m)).collect();
            o.p.missing = cands[r.below(cands.len())];
            "a missing marker that never occurs"
        }
        // (without l2 an empty side has an infinite weight, which the limit would cut)
        17 if p.mds == 0.0 && p.l2 > 0.0 && m.finite() => {
            o.p.mds = r.pick(&[1e30, 3e38]);
            "a step limit that is never reached"
        }
        18 if p.max_leaves == usize::MAX && p.samp == Samp::None => {
            o.p.max_leaves = widest + r.pick(&[2, 3, 100]);
            "a leaf limit that is never reached"
        }
        19 if deepest < p.max_depth => {
            o.p.max_depth = if r.chance(0.5) { deepest.max(1) } else { deepest + r.range(1, 100) };
            "a depth limit that is never reached"
        }
        _ => return None,
    })
}


/// `small` is `big` with some splits undone.
fn pruned(small: &Tree, big: &Tree) -> Result<u64, String> {
    let mut todo = vec![(0usize, 0usize)];
    let mut undone = 0;
    while let Some((i, j)) = todo.pop() {
        let (a, b) = match (small.nodes.get(i), big.nodes.get(j)) {
            (Some(a), Some(b)) => (a, b),
            _ => return Err(format!("no node {} / {}", i, j)),
        };
        let eq = |x: f32, y: f32| x == y || (x.is_nan() && y.is_nan());
        if a.depth != b.depth || !eq(a.hessian_sum, b.hessian_sum) {
            return Err(format!("nodes differ: {:?} and {:?}", a, b));
        }
        if a.is_leaf {
            if !eq(a.weight_value, b.weight_value) {
                return Err(format!("weights differ: {:?} and {:?}", a, b));
            }
            if !b.is_leaf {
                undone += 1;
            }
            continue;
        }
        if b.is_leaf {
            return Err(format!("split only under the tighter limit: {:?} and {:?}", a, b));
        }
        if a.split_feature != b.split_feature || a.split_value != b.split_value || !eq(a.split_gain, b.split_gain) || !eq(a.weight_value, b.weight_value) || a.ternary() != b.ternary() {
            return Err(format!("splits differ: {:?} and {:?}", a, b));
        }
        if a.ternary() {
            todo.push((a.missing_node, b.missing_node));
        } else if (a.missing_node == a.left_child) != (b.missing_node == b.left_child) {
            return Err(format!("missing values go elsewhere: {:?} and {:?}", a, b));
        }
        todo.push((a.left_child, b.left_child));
        todo.push((a.right_child, b.right_child));
    }
    Ok(undone)
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a pair of trainings: one setting changed that does not apply to the run, fewer iterations, a tighter depth or leaf limit, or a learning rate times a power of two; non-trivial when the model has a split; distinct by model contents");
    ctx.stage("inert", 14000, 300000, 20.0, 300.0, |w, r| {
        let prof = Profile { evals: r.chance(0.4), missing: r.chance(0.7), ..Default::default() };
        let mut c = gen_case(r, &prof);
        if !c.evals.is_empty() && r.chance(0.5) {
            c.p.esr = Some(r.range(1, 3));
        }
        let (b1, m1) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        for _ in 0..6 {
            let mut o = c.clone();
            let name = match inert(r, &c, &m1, &mut o) {
                Some(n) => n,
                None => continue,
            };
            let (b2, m2) = match fit_model(w, &o) {
                Some(v) => v,
                None => return,
            };
            if !m1.same_trees(&m2) || m1.base_score.to_bits() != m2.base_score.to_bits() {
                let at = m1.trees.iter().zip(&m2.trees).position(|(a, b)| !a.same(b));
                let t = |m: &Model| m.trees.len();
                return w.fail("inert", format!("{} changes the model: {} and {} trees, first different tree {:?}, base {} and {}", name, t(&m1), t(&m2), at, m1.base_score, m2.base_score), &o);
            }
            // Predictions: what the model says does not depend on the setting either.
            if m1.prediction_iteration == m2.prediction_iteration && c.p.missing.to_bits() == o.p.missing.to_bits() {
                let (p1, p2) = match (w.call("predict", &c, || b1.predict(&c.d.m(), true)), w.call("predict", &o, || b2.predict(&c.d.m(), false))) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return,
                };
                if !same_bits(&p1, &p2) {
                    return w.fail("inert", format!("{} changes predictions", name), &o);
                }
            }
            if name == "evaluation data before the last" {
                let (h1, h2) = (history(&b1), history(&b2));
                let last = |h: &[Vec<f64>]| h.iter().map(|v| v.last().copied().unwrap_or(f64::NAN)).collect::<Vec<_>>();
                if m1.best_iteration != m2.best_iteration || !same_bits(&last(&h1), &last(&h2)) {
                    return w.fail("inert", format!("{} changes the best iteration or the record of the last: {:?} and {:?}", name, m1.best_iteration, m2.best_iteration), &o);
                }
            }
            w.count(name, 1);
            if m1.splits() > 0 {
                w.nontrivial(m1.hash());
            }
        }
    });
    let iterations = |w: &mut W, r: &mut Rng, mut c: Case| {
        if !c.evals.is_empty() && r.chance(0.5) {
            c.p.esr = Some(r.range(1, 3));
        }
        if c.p.iterations < 2 {
            c.p.iterations = 2;
        }
        let mut o = c.clone();
        o.p.iterations = if c.p.iterations > 500 { c.p.iterations - r.range(1, 600) } else { r.below(c.p.iterations) };
        let ((b1, m1), (b2, m2)) = match (fit_model(w, &c), fit_model(w, &o)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let k = o.p.iterations.min(m1.trees.len());
        if m2.trees.len() != k || !m1.trees.iter().zip(&m2.trees).all(|(a, b)| a.same(b)) || m1.base_score.to_bits() != m2.base_score.to_bits() {
            return w.fail("iterations", format!("{} iterations give {} trees, {} give {}: the shorter training is not the beginning of the longer", c.p.iterations, m1.trees.len(), o.p.iterations, m2.trees.len()), &c);
        }
        let (h1, h2) = (history(&b1), history(&b2));
        if !c.evals.is_empty() && !same_rows(&h1[..k.min(h1.len())], &h2) {
            return w.fail("iterations", format!("{} rows of history with {} iterations are not the beginning of {} with {}", h2.len(), o.p.iterations, h1.len(), c.p.iterations), &c);
        }
        w.count("shorter trainings compared", 1);
        w.count("trees of shorter trainings compared", k as u64);
        if m2.splits() > 0 {
            w.nontrivial(m1.hash());
            w.sample(|| -> Value { c.brief() });
        }
    };
    ctx.stage("iterations", 7000, 150000, 12.0, 200.0, |w, r| {
        let prof = Profile { evals: r.chance(0.5), iters: 9, ..Default::default() };
        let c = gen_case(r, &prof);
        iterations(w, r, c);
    });
    ctx.stage("many-iterations", 12, 200, 12.0, 200.0, |w, r| {
        let prof = Profile { evals: r.chance(0.3), max_rows: 40, max_cols: 3, wide: 0.0, big: 0.0, ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.iterations = r.range(700, 2200);
        c.p.max_depth = c.p.max_depth.min(3);
        iterations(w, r, c);
        w.count("trainings of more than 700 iterations", 1);
    });
    ctx.stage("limits", 9000, 200000, 12.0, 200.0, |w, r| {
        let prof = Profile { ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.iterations = 1;
        if c.p.cmb && c.p.mnt == Mnt::AvgLeaf {
            // The weight of a missing node then averages the leaves below its siblings.
            c.p.mnt = Mnt::AvgNode;
        }
        let mut o = c.clone();
        let what = if r.chance(0.5) {
            c.p.grow = Grow::Depth;
            o.p.grow = Grow::Depth;
            if c.p.max_depth < 2 {
                c.p.max_depth = r.range(2, 7);
            }
            o.p.max_depth = r.range(1, c.p.max_depth - 1).min(8);
            "depth"
        } else {
            if c.p.max_leaves < 3 {
                c.p.max_leaves = r.range(3, 30);
            }
            o.p.max_leaves = r.range(1, (c.p.max_leaves - 1).min(20));
            "leaves"
        };
        let ((_, m1), (_, m2)) = match (fit_model(w, &c), fit_model(w, &o)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        if m1.trees.len() != 1 || m2.trees.len() != 1 {
            return w.fail("limits", format!("{} and {} trees from one iteration", m1.trees.len(), m2.trees.len()), &c);
        }
        match pruned(&m2.trees[0], &m1.trees[0]) {
            Err(e) => return w.fail("limits", format!("max_depth {} / {}, max_leaves {} / {}: {}", o.p.max_depth, c.p.max_depth, o.p.max_leaves, c.p.max_leaves, e), &c),
            Ok(n) => w.count("splits undone by a tighter limit", n),
        }
        w.count(if what == "depth" { "depth limits compared" } else { "leaf limits compared" }, 1);
        if m1.splits() > 0 {
            w.nontrivial(m1.hash());
        }
    });
    ctx.stage("rate", 9000, 200000, 10.0, 200.0, |w, r| {
        let prof = Profile { ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.iterations = 1;
        let mut o = c.clone();
        let f = r.pick(&[0.5f32, 0.25, 0.125, 2.0, 0.0078125]);
        o.p.lr = c.p.lr * f;
        let ((_, m1), (_, m2)) = match (fit_model(w, &c), fit_model(w, &o)) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        let (a, b) = (&m1.trees[0], &m2.trees[0]);
        if a.nodes.len() != b.nodes.len() {
            return w.fail("rate", format!("learning rate {} gives {} nodes, {} gives {}", c.p.lr, a.nodes.len(), o.p.lr, b.nodes.len()), &c);
        }
        for (x, y) in a.nodes.iter().zip(&b.nodes) {
            let mut z = x.clone();
            z.weight_value *= f;
            let tiny = z.weight_value.abs() < 1e-30;
            if tiny || (z.weight_value == y.weight_value) {
                z.weight_value = y.weight_value;
            }
            if !z.same(y) && !(x.weight_value.is_nan() || y.weight_value.is_nan()) {
                return w.fail("rate", format!("learning rate {} gives {:?}, {} gives {:?}", c.p.lr, x, o.p.lr, y), &c);
            }
        }
        w.count("learning rates compared", 1);
        if m1.splits() > 0 {
            w.nontrivial(m1.hash());
        }
    });
}
