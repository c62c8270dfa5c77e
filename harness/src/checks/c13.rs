//! C13: early stopping and evaluation history are exact.
use super::*;
use fvm::case::*;
use fvm::gen::*;
use fvm::metrics::*;
use fvm::view::*;

/// (rows, cols, values) of the recorded history.
pub fn history(b: &GradientBooster) -> Result<Option<(usize, usize, Vec<f64>)>, String> {
    let v = canon(b)?;
    let h = &v["evaluation_history"];
    if h.is_null() {
        return Ok(None);
    }
    let data: Vec<f64> = h["data"].as_array().ok_or("history without data")?.iter().map(fv).collect();
    Ok(Some((
        h["rows"].as_u64().ok_or("history without rows")? as usize,
        h["cols"].as_u64().ok_or("history without cols")? as usize,
        data,
    )))
}

fn check(w: &mut W, c: &Case, b: &GradientBooster, m: &Model) {
    let p = &c.p;
    let met = metric_in_use(p);
    let nt = m.trees.len();
    let h = match history(b) {
        Ok(h) => h,
        Err(e) => return w.fail("dump", e, c),
    };
    let (rows, cols, data) = match h {
        None => {
            if !c.evals.is_empty() && p.iterations > 0 {
                return w.fail("history-missing", "evaluation sets were given but there is no history".into(), c);
            }
            if m.best_iteration.is_some() {
                return w.fail("best-iteration", "a best iteration without evaluation".into(), c);
            }
            return;
        }
        Some(v) => v,
    };
    if c.evals.is_empty() {
        return w.fail("history-unexpected", "history without evaluation sets".into(), c);
    }
    if rows != nt || cols != c.evals.len() || data.len() != rows * cols {
        return w.fail("history-shape", format!("history is {}x{} ({} values) for {} trees and {} evaluation sets", rows, cols, data.len(), nt, c.evals.len()), c);
    }
    for (s, e) in c.evals.iter().enumerate() {
        let mut f = vec![m.base_score; e.rows];
        let er: Vec<Vec<f64>> = (0..e.rows).map(|i| e.row(i)).collect();
        for (ti, t) in m.trees.iter().enumerate() {
            for i in 0..e.rows {
                match t.leaf(&er[i], p) {
                    Ok(l) => f[i] += t.nodes[l].weight_value as f64,
                    Err(x) => return w.fail("malformed-tree", x, c),
                }
            }
            let want = metric(met, &e.y, &f, &e.w);
            let got = data[ti * cols + s];
            if !close(got, want, 1e-8) {
                return w.fail("history-value", format!("{:?} of evaluation set {} after tree {} is recorded as {} but is {}", met, s, ti, got, want), c);
            }
            w.count("history entries compared", 1);
        }
    }
    match p.esr {
        None => {
            if nt != p.iterations {
                return w.fail("tree-count", format!("{} trees for {} iterations without early stopping", nt, p.iterations), c);
            }
            if m.best_iteration.is_some() || m.prediction_iteration.is_some() {
                return w.fail("best-iteration", "a best iteration without early stopping".into(), c);
            }
        }
        Some(rounds) => {
            let last: Vec<f64> = (0..nt).map(|t| data[t * cols + cols - 1]).collect();
            let mut best = 0;
            let mut stop = None;
            for i in 1..nt {
                if better(met, last[best], last[i]) {
                    best = i;
                } else if i - best >= rounds {
                    stop = Some(i);
                    break;
                }
            }
            match stop {
                Some(i) if i + 1 != nt => {
                    return w.fail("stopped-late", format!("best value {} at iteration {}, {} rounds: should have stopped after iteration {} but there are {} trees ({:?})", last[best], best, rounds, i, nt, last), c)
                }
                None if nt != p.iterations => {
                    return w.fail("stopped-early", format!("stopped after {} of {} trees although the best is iteration {} ({} rounds, {:?})", nt, p.iterations, best, rounds, last), c)
                }
                _ => {}
            }
            if m.best_iteration != Some(best) {
                return w.fail("best-iteration", format!("best iteration is {:?} but the first best value of {:?} is at {}", m.best_iteration, last, best), c);
            }
            if m.prediction_iteration != Some(best + 1) {
                return w.fail("prediction-iteration", format!("predictions use {:?} trees, best iteration is {}", m.prediction_iteration, best), c);
            }
            w.count(if stop.is_some() { "runs stopped early" } else { "runs not stopped" }, 1);
            if last.iter().any(|v| v.is_nan()) {
                w.count("runs with NaN metrics", 1);
            }
            let pr = match w.call("predict", c, || b.predict(&c.d.m(), false)) {
                Some(v) => v,
                None => return,
            };
            for i in 0..c.d.rows.min(20) {
                match m.predict_row(&c.d.row(i), p, best + 1) {
                    Ok(v) if v.to_bits() == pr[i].to_bits() => {}
                    Ok(v) => return w.fail("best-prediction", format!("row {} predicts {} but {} with the trees up to the best iteration {}", i, pr[i], v, best), c),
                    Err(e) => return w.fail("malformed-tree", e, c),
                }
            }
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training run with 1-3 evaluation sets; the history is recomputed from the trees and the stopping rule replayed on it; also compared with a run without evaluation; non-trivial when at least two trees with a split were evaluated; distinct by model contents");
    ctx.stage("history", 8000, 120000, 30.0, 300.0, |w, r| {
        let prof = Profile { evals: true, iters: 25, max_rows: 120, big: 0.005, max_cols: 4, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if r.chance(0.7) {
            c.p.esr = Some(r.pick(&[0, 1, 1, 2, 3, 4, 5, 10, 100]));
        }
        if r.chance(0.5) {
            c.p.lr = r.pick(&[1.0, 0.7, 1.5]);
        }
        if r.chance(0.3) {
            // the training data itself, in some position
            let k = r.below(c.evals.len() + 1);
            c.evals.insert(k, c.d.clone());
        }
        if r.chance(0.2) {
            // constant metric: no improvement ever
            for e in c.evals.iter_mut() {
                for v in e.w.iter_mut() {
                    *v = 0.0;
                }
                e.w[0] = 1.0;
            }
        }
        if metric_in_use(&c.p) == Met::Auc && c.p.obj == Obj::Sq {
            // ranking needs two classes
            for e in c.evals.iter_mut() {
                for v in e.y.iter_mut() {
                    *v = if *v > 0.0 { 1.0 } else { 0.0 };
                }
            }
        }
        let (b, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return w.count("overflowed models skipped", 1);
        }
        check(w, &c, &b, &m);
        if w.failed() {
            return;
        }
        if m.splits() > 0 && m.trees.len() > 1 {
            w.nontrivial(m.hash());
            w.sample(|| c.brief());
        }
        // Evaluation must not influence the trees.
        let mut plain = c.clone();
        plain.evals.clear();
        if r.chance(0.5) {
            plain.p.esr = None;
            plain.p.metric = r.pick(&[None, Some(Met::Auc), Some(Met::Rmse)]);
        }
        let (pb, pm) = match fit_model(w, &plain) {
            Some(v) => v,
            None => return,
        };
        check(w, &plain, &pb, &pm);
        if pm.trees.len() != plain.p.iterations {
            return w.fail("tree-count", format!("{} trees for {} iterations without evaluation sets", pm.trees.len(), plain.p.iterations), &plain);
        }
        if pm.prediction_iteration.is_some() || pm.best_iteration.is_some() {
            return w.fail("best-iteration", "a best iteration without evaluation sets".into(), &plain);
        }
        for (i, (a, q)) in m.trees.iter().zip(&pm.trees).enumerate() {
            if !a.same(q) {
                return w.fail("evaluation-influence", format!("tree {} differs between training with and without evaluation", i), &c);
            }
        }
        w.count("runs compared with training without evaluation", 1);
    });
}
