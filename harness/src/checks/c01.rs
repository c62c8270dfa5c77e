//! C01: a prediction is the base score plus the weights of the leaves the row
//! is routed to, independent of the rest of the batch.
use crate::synth::synth_model;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::view::*;
use forust_ml::GradientBooster;

fn close(a: f64, b: f64, scale: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-9 * scale
}

fn check_model(w: &mut W, r: &mut fvm::rng::Rng, c: &Case, b: &mut GradientBooster, m: &Model, probe: &Data) {
    let kmax = m.trees.len();
    let scale = m.base_score.abs()
        + m.trees
            .iter()
            .map(|t| t.nodes.iter().filter(|n| n.is_leaf).map(|n| n.weight_value.abs() as f64).fold(0.0, f64::max))
            .sum::<f64>();
    let orig = b.prediction_iteration;
    let mut ks: Vec<Option<usize>> = vec![orig];
    if kmax > 0 {
        ks.push(Some(r.range(0, kmax)));
        ks.push(Some(kmax));
        ks.push(None);
    }
    for k in ks {
        b.prediction_iteration = k;
        let used = k.unwrap_or(kmax);
        for par in [false, true] {
            let got = match w.call("predict", c, || b.predict(&probe.m(), par)) {
                Some(v) => v,
                None => return,
            };
            if got.len() != probe.rows {
                w.fail("length", format!("{} predictions for {} rows", got.len(), probe.rows), c);
                return;
            }
            for i in 0..probe.rows {
                let row = probe.row(i);
                let want = match m.predict_row(&row, &c.p, used) {
                    Ok(v) => v,
                    Err(e) => {
                        w.fail("malformed-tree", e, c);
                        return;
                    }
                };
                if !close(got[i], want, scale) {
                    w.fail(
                        "prediction",
                        format!("row {:?}: predict (parallel={}, prediction_iteration={:?}) = {} but base score + routed leaves over {} trees = {}", row, par, k, got[i], used, want),
                        c,
                    );
                    return;
                }
                w.count("row predictions compared", 1);
            }
        }
    }
    b.prediction_iteration = orig;
    // Batch independence: single rows, a permutation with repeats, extra columns order kept.
    let full = match w.call("predict", c, || b.predict(&probe.m(), true)) {
        Some(v) => v,
        None => return,
    };
    let n = probe.rows;
    for _ in 0..3 {
        let i = r.below(n);
        let one = probe.take(&[i]);
        let par = r.chance(0.5);
        if let Some(v) = w.call("predict", c, || b.predict(&one.m(), par)) {
            if v.len() != 1 || !close(v[0], full[i], scale) {
                w.fail("batch-dependence", format!("row {} alone predicts {:?}, in the batch {}", i, v, full[i]), c);
                return;
            }
            w.count("single-row batches compared", 1);
        }
    }
    let idx: Vec<usize> = (0..r.range(1, 2 * n)).map(|_| r.below(n)).collect();
    let perm = probe.take(&idx);
    if let Some(v) = w.call("predict", c, || b.predict(&perm.m(), false)) {
        for (a, i) in v.iter().zip(&idx) {
            if !close(*a, full[*i], scale) {
                w.fail("batch-dependence", format!("row {} predicts {} in a shuffled batch, {} before", i, a, full[*i]), c);
                return;
            }
        }
        w.count("shuffled rows compared", idx.len() as u64);
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a random training set + parameters (or a hand-made model file) and a probe batch; non-trivial when the model has at least one split; distinct by model contents");
    ctx.stage("trained", 4000, 60000, 22.0, 300.0, |w, r| {
        let mut prof = Profile::default();
        prof.evals = r.chance(0.15);
        prof.iters = if r.chance(0.1) { 25 } else { 6 };
        let mut c = gen_case(r, &prof);
        if prof.evals {
            c.p.esr = Some(r.range(1, 3));
        }
        let mut b = match w.must("fit", &c, || c.train()) {
            Some(b) => b,
            None => return,
        };
        let m = match Model::of(&b) {
            Ok(m) => m,
            Err(e) => return w.fail("dump", e, &c),
        };
        if !m.finite() {
            // Overflowed Newton steps (l2 = 0): inf and NaN are both written as null.
            return w.count("overflowed models skipped", 1);
        }
        // Training rows + hostile probes + every threshold and its neighbours.
        let np = r.range(1, 60);
        let mut rows: Vec<Vec<f64>> = {
            let pr = gen_probe(r, &c.d, &c.p, np);
            (0..pr.rows).map(|i| pr.row(i)).collect()
        };
        for _ in 0..10.min(c.d.rows) {
            rows.push(c.d.row(r.below(c.d.rows)));
        }
        for t in &m.trees {
            for n in t.nodes.iter().filter(|n| !n.is_leaf) {
                if rows.len() > 120 {
                    break;
                }
                if n.split_feature < c.d.cols {
                    let mut row = c.d.row(r.below(c.d.rows));
                    let s = n.split_value;
                    let v = r.pick(&[s, f64::from_bits(s.to_bits().wrapping_add(1)), f64::from_bits(s.to_bits().wrapping_sub(1)), c.p.missing]);
                    if !v.is_nan() || c.p.missing.is_nan() {
                        row[n.split_feature] = v;
                        rows.push(row);
                    }
                }
            }
        }
        let probe = Data::from_rows(&rows, c.d.cols);
        check_model(w, r, &c, &mut b, &m, &probe);
        if m.splits() > 0 {
            w.nontrivial(m.hash());
            w.sample(|| c.brief());
        }
        w.count("trees observed", m.trees.len() as u64);
        w.count("splits observed", m.splits() as u64);
    });
    ctx.stage("loaded", 3000, 40000, 8.0, 120.0, |w, r| {
        let (c, mut b, m) = match synth_model(w, r) {
            Some(v) => v,
            None => return,
        };
        let np = r.range(1, 40);
        let probe = gen_probe(r, &c.d, &c.p, np);
        check_model(w, r, &c, &mut b, &m, &probe);
        if m.splits() > 0 {
            w.nontrivial(m.hash());
        }
        w.count("splits observed", m.splits() as u64);
    });
    // a batch of more rows than 16 bits can count
    ctx.stage("huge", 8, 60, 12.0, 120.0, |w, r| {
        let prof = Profile { max_cols: 3, wide: 0.0, ..Default::default() };
        let c = gen_case(r, &prof);
        let mut b = match w.must("fit", &c, || c.train()) {
            Some(b) => b,
            None => return,
        };
        let m = match Model::of(&b) {
            Ok(m) if m.finite() => m,
            Ok(_) => return w.count("overflowed models skipped", 1),
            Err(e) => return w.fail("dump", e, &c),
        };
        let np = r.range(66000, 80000);
        let probe = gen_probe(r, &c.d, &c.p, np);
        check_model(w, r, &c, &mut b, &m, &probe);
        w.count("batches of more than 65536 rows", 1);
    });
}
