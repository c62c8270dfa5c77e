//! C24: sample weights mean multiplicity, rows are a multiset, and only the
//! ratio of weights and weight-scaled regularisers matters.
use super::*;
use fvm::case::*;
use fvm::gen::*;
use fvm::rng::Rng;
use fvm::view::*;

/// A case whose first tree is computed without rounding.
fn exact_case(r: &mut Rng, max_rows: usize, integer_w: bool) -> Case {
    let prof = Profile { exact: true, max_rows, sampling: false, colsample: true, iters: 1, big: 0.01, ..Default::default() };
    let mut c = gen_case(r, &prof);
    c.p.iterations = 1;
    c.p.init_base = false;
    c.p.base_score = r.pick(&[0.0, -1.0, 2.0]);
    if integer_w && c.d.w.iter().any(|w| w.fract() != 0.0) {
        for w in c.d.w.iter_mut() {
            *w *= 2.0;
        }
    }
    c
}

/// Percentile cuts come from rounded cumulative shares: make every share exact
/// (total weight a power of two), or use a bin for every value.
fn exact_cuts(w: &mut W, c: &mut Case) {
    let mut percentile = false;
    let mut missing = false;
    for j in 0..c.d.cols {
        let mut v: Vec<f64> = c.d.col(j).iter().copied().filter(|x| !c.p.is_missing(*x)).collect();
        missing |= v.len() < c.d.rows;
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        percentile |= v.len() > c.p.nbins as usize;
    }
    if !percentile {
        return;
    }
    if missing {
        c.p.nbins = 4000;
        return;
    }
    let total: f64 = c.d.w.iter().sum::<f64>().ceil();
    let up = (total as u64).next_power_of_two() as f64;
    let mut extra = up - c.d.w.iter().sum::<f64>();
    let n = c.d.rows;
    let mut i = 0;
    while extra > 0.0 {
        let add = extra.min(1.0);
        c.d.w[i % n] += add;
        extra -= add;
        i += 1;
    }
    w.count("percentile binned cases", 1);
}

fn compare(w: &mut W, c: &Case, other: &Case, what: &'static str, probe: &Data) {
    let (b1, m1) = match fit_model(w, c) {
        Some(v) => v,
        None => return,
    };
    let (b2, m2) = match fit_model(w, other) {
        Some(v) => v,
        None => return,
    };
    // 0 and -0 are the same threshold.
    let plain = |m: &Model| {
        let mut m = m.clone();
        m.trees.iter_mut().for_each(|t| t.nodes.iter_mut().for_each(|n| n.split_value += 0.0));
        m
    };
    let (m1, m2) = (plain(&m1), plain(&m2));
    if !m1.same_trees(&m2) {
        let d = m1.trees.iter().zip(&m2.trees).position(|(a, b)| !a.same(b));
        return w.fail(what, format!("{}: the trees differ (first in tree {:?}; {} and {} splits)", what, d, m1.splits(), m2.splits()), c);
    }
    for par in [false, true] {
        let (p1, p2) = match (w.call("predict", c, || b1.predict(&probe.m(), par)), w.call("predict", other, || b2.predict(&probe.m(), par))) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        if p1.iter().zip(&p2).any(|(a, b)| a.to_bits() != b.to_bits() && !(a.is_nan() && b.is_nan())) {
            return w.fail(what, format!("{}: the trees are the same but predictions differ", what), c);
        }
    }
    w.count(what, 1);
    if m1.splits() > 0 {
        w.nontrivial(m1.hash());
        w.sample(|| c.brief());
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a pair of training sets that mean the same: rows repeated or weighted, reordered, without the zero weight rows, or weights and regularisers scaled together; non-trivial when the tree has a split; distinct by model contents");
    ctx.stage("repeat", 8000, 120000, 15.0, 150.0, |w, r| {
        let mut c = exact_case(r, 150, true);
        if r.chance(0.7) {
            let k = r.range(2, 6);
            for v in c.d.w.iter_mut() {
                *v = r.range(1, k) as f64;
            }
        } else {
            c.d.w.iter_mut().for_each(|v| *v = v.max(1.0));
        }
        if r.chance(0.3) {
            for v in c.d.x.iter_mut() {
                if c.p.is_missing(*v) {
                    *v = r.below(40) as f64 + 0.25;
                }
            }
        }
        exact_cuts(w, &mut c);
        let mut idx = vec![];
        for i in 0..c.d.rows {
            for _ in 0..c.d.w[i] as usize {
                idx.push(i);
            }
        }
        let shuffled = r.chance(0.5);
        if shuffled {
            r.shuffle(&mut idx);
        }
        let mut o = c.clone();
        o.d = c.d.take(&idx);
        o.d.w = vec![1.0; idx.len()];
        let probe = gen_probe(r, &c.d, &c.p, 20);
        compare(w, &c, &o, "integer weights are repetitions", &probe);
    });
    ctx.stage("order", 8000, 120000, 15.0, 150.0, |w, r| {
        let mut c = exact_case(r, 300, false);
        if r.chance(0.3) {
            for v in c.d.x.iter_mut() {
                if c.p.is_missing(*v) {
                    *v = r.below(40) as f64 + 0.25;
                }
            }
        }
        exact_cuts(w, &mut c);
        let mut idx: Vec<usize> = (0..c.d.rows).collect();
        if r.chance(0.2) {
            idx.reverse();
        } else {
            r.shuffle(&mut idx);
        }
        let mut o = c.clone();
        o.d = c.d.take(&idx);
        let probe = gen_probe(r, &c.d, &c.p, 20);
        compare(w, &c, &o, "row order does not matter", &probe);
    });
    ctx.stage("scale", 8000, 120000, 15.0, 150.0, |w, r| {
        let prof = Profile { evals: r.chance(0.3), exact: r.chance(0.2), iters: 8, ..Default::default() };
        let c = gen_case(r, &prof);
        let k = r.pick(&[-8i32, -3, -1, 1, 2, 5, 10]);
        let f = 2f64.powi(k);
        let mut o = c.clone();
        for d in std::iter::once(&mut o.d).chain(o.evals.iter_mut()) {
            d.w.iter_mut().for_each(|v| *v *= f);
        }
        o.p.l1 *= f as f32;
        o.p.l2 *= f as f32;
        o.p.gamma *= f as f32;
        o.p.mlw *= f as f32;
        let (b1, m1) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let (b2, m2) = match fit_model(w, &o) {
            Some(v) => v,
            None => return,
        };
        // Outside the range where scaling by a power of two is exact.
        let safe = |v: f32| v == 0.0 || (v.abs() > 1e-25 && v.abs() < 1e25);
        let tame = |m: &Model| m.trees.iter().all(|t| t.nodes.iter().all(|n| safe(n.split_gain) && safe(n.hessian_sum) && safe(n.weight_value)));
        if !tame(&m1) || !tame(&m2) {
            return w.count("models outside the exact range skipped", 1);
        }
        if m1.trees.len() != m2.trees.len() || m1.base_score.to_bits() != m2.base_score.to_bits() {
            return w.fail("scale", format!("weights and regularisers scaled by {}: {} and {} trees, base {} and {}", f, m1.trees.len(), m2.trees.len(), m1.base_score, m2.base_score), &c);
        }
        for (ti, (a, b)) in m1.trees.iter().zip(&m2.trees).enumerate() {
            let same = a.nodes.len() == b.nodes.len()
                && a.nodes.iter().zip(&b.nodes).all(|(x, y)| {
                    x.is_leaf == y.is_leaf
                        && x.split_feature == y.split_feature
                        && x.split_value.to_bits() == y.split_value.to_bits()
                        && x.weight_value.to_bits() == y.weight_value.to_bits()
                        && x.missing_node == y.missing_node
                        && x.left_child == y.left_child
                        && x.right_child == y.right_child
                        && (x.hessian_sum * f as f32).to_bits() == y.hessian_sum.to_bits()
                        && (x.split_gain * f as f32).to_bits() == y.split_gain.to_bits()
                });
            if !same {
                return w.fail("scale", format!("weights and regularisers scaled by {}: tree {} differs", f, ti), &c);
            }
        }
        if m1.best_iteration != m2.best_iteration {
            return w.fail("scale", format!("weights scaled by {}: best iteration {:?} and {:?}", f, m1.best_iteration, m2.best_iteration), &c);
        }
        let probe = gen_probe(r, &c.d, &c.p, 20);
        let (p1, p2) = match (w.call("predict", &c, || b1.predict(&probe.m(), true)), w.call("predict", &o, || b2.predict(&probe.m(), true))) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        if p1.iter().zip(&p2).any(|(a, b)| a.to_bits() != b.to_bits() && !(a.is_nan() && b.is_nan())) {
            return w.fail("scale", "the trees are the same but predictions differ".to_string(), &c);
        }
        w.count("scaled models compared", 1);
        if m1.splits() > 0 {
            w.nontrivial(m1.hash());
        }
    });
    ctx.stage("zero", 8000, 120000, 15.0, 150.0, |w, r| {
        let mut c = exact_case(r, 200, false);
        c.p.nbins = 1000;
        if c.d.rows > 1000 {
            return;
        }
        if c.p.mlw == 0.0 {
            c.p.mlw = 0.5;
        }
        // A value that only zero weight rows have adds a threshold above all
        // others, which can separate missing from non-missing rows.
        if !c.p.cmb {
            c.p.ams = false;
        }
        let rate = r.pick(&[0.05, 0.3, 0.7]);
        for v in c.d.w.iter_mut() {
            if r.chance(rate) {
                *v = 0.0;
            }
        }
        let idx: Vec<usize> = (0..c.d.rows).filter(|i| c.d.w[*i] > 0.0).collect();
        if idx.is_empty() {
            return;
        }
        let mut o = c.clone();
        o.d = c.d.take(&idx);
        let (b1, m1) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let (b2, m2) = match fit_model(w, &o) {
            Some(v) => v,
            None => return,
        };
        let (a, b) = (&m1.trees[0], &m2.trees[0]);
        for i in 0..o.d.rows {
            let row = o.d.row(i);
            let (p1, p2) = match (a.path(&row, &c.p), b.path(&row, &c.p)) {
                (Ok(x), Ok(y)) => (x, y),
                (Err(e), _) | (_, Err(e)) => return w.fail("malformed-tree", e, &c),
            };
            let same = p1.len() == p2.len()
                && p1.iter().zip(&p2).all(|(x, y)| {
                    let (x, y) = (&a.nodes[*x], &b.nodes[*y]);
                    x.weight_value.to_bits() == y.weight_value.to_bits()
                        && x.hessian_sum.to_bits() == y.hessian_sum.to_bits()
                        && x.is_leaf == y.is_leaf
                        && (x.is_leaf || x.split_feature == y.split_feature)
                        && x.split_gain.to_bits() == y.split_gain.to_bits()
                });
            if !same {
                if std::env::var("FVM_SHOW").is_ok() {
                    for t in [a, b] {
                        t.nodes.iter().for_each(|n| eprintln!("{:?}", n));
                        eprintln!();
                    }
                    eprintln!("{:?}\n{:?}\n{:?}", row, p1, p2);
                }
                return w.fail("zero-weight", format!("a row with weight takes another path when the {} rows of weight zero are left out", c.d.rows - o.d.rows), &c);
            }
        }
        let (p1, p2) = match (w.call("predict", &c, || b1.predict(&o.d.m(), true)), w.call("predict", &o, || b2.predict(&o.d.m(), true))) {
            (Some(a), Some(b)) => (a, b),
            _ => return,
        };
        if p1.iter().zip(&p2).any(|(a, b)| a.to_bits() != b.to_bits()) {
            return w.fail("zero-weight", "same paths but predictions differ when rows of weight zero are left out".to_string(), &c);
        }
        w.count("rows compared without the zero weight rows", o.d.rows as u64);
        if m1.splits() > 0 && idx.len() < c.d.rows {
            w.nontrivial(m1.hash());
        }
    });
    ctx.stage("unit", 4000, 60000, 10.0, 80.0, |w, r| {
        let prof = Profile { weights: false, iters: 8, ..Default::default() };
        let c = gen_case(r, &prof);
        let (_, m1) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let b2 = w.must("fit_unweighted", &c, || {
            let mut b = c.p.build()?;
            b.fit_unweighted(&c.d.m(), &c.d.y, None).map_err(|e| e.to_string())?;
            Ok(b)
        });
        let m2 = match b2.map(|b| Model::of(&b)) {
            Some(Ok(m)) => m,
            _ => return,
        };
        if !m1.same_trees(&m2) || m1.base_score.to_bits() != m2.base_score.to_bits() {
            return w.fail("unit", "weights of one and no weights give different models".to_string(), &c);
        }
        w.count("unweighted fits compared", 1);
        if m1.splits() > 0 {
            w.nontrivial(m1.hash());
        }
    });
}
