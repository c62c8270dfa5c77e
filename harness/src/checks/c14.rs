//! C14: reported metrics have their textbook values.
use super::*;
use crate::checks::c13::history;
use fvm::case::*;
use fvm::metrics::*;
use fvm::rng::Rng;

/// A model whose predictions on its single id column are (nearly) any list of
/// scores: one deep squared-loss tree that isolates every record.
fn scores(r: &mut Rng, n: usize) -> Vec<f64> {
    let kind = r.below(10);
    let fine = 0.1f64.powi(r.range(3, 30) as i32);
    (0..n)
        .map(|_| match kind {
            0 => r.normal(),
            1 => r.below(4) as f64 - 1.5,
            2 => r.normal() * 30.0,
            3 => r.pick(&[800.0, -800.0, 40.0, -40.0, 36.5, 0.0, 1e6, -1e6]),
            4 => r.f() * 5.0,
            5 => r.f(),
            6 => 1e6 + r.below(3) as f64,
            8 => r.below(6) as f64 * fine,
            9 => r.normal() * fine,
            _ => (r.normal() * 3.0).exp(),
        })
        .collect()
}

fn case(r: &mut Rng) -> Case {
    let n = r.range(2, 60);
    let s = scores(r, n);
    let p = Params {
        obj: Obj::Sq,
        iterations: r.range(1, 2),
        lr: 1.0,
        l2: 0.0,
        max_depth: 30,
        mlw: 0.5,
        base_score: 0.0,
        metric: Some(r.pick(&[Met::Auc, Met::Auc, Met::Log, Met::Rmse, Met::Rmsle])),
        parallel: r.chance(0.2),
        nbins: 256,
        ..Default::default()
    };
    let x: Vec<f64> = (0..n).map(|i| i as f64).collect();
    let d = Data { rows: n, cols: 1, x, y: s, w: vec![1.0; n] };
    let k = r.range(1, 3);
    let mut evals = vec![];
    for _ in 0..k {
        let en = if r.chance(0.01) { r.range(300, 3000) } else { r.range(1, 80) };
        let kind = r.below(5);
        let wk = r.below(4);
        let y: Vec<f64> = (0..en)
            .map(|_| match kind {
                0 => 0.0,
                1 => 1.0,
                2 => r.f(),
                _ => r.below(2) as f64,
            })
            .collect();
        let y = match p.metric {
            Some(Met::Rmse) | Some(Met::Rmsle) if r.chance(0.7) => (0..en).map(|_| (r.normal() * 2.0).exp() - 0.5).collect(),
            _ => y,
        };
        let w: Vec<f64> = (0..en)
            .map(|_| match wk {
                0 => 1.0,
                1 => r.range(0, 3) as f64,
                2 => r.frange(0.01, 10.0),
                _ => r.pick(&[0.0, 1e-6, 1.0, 1e6]),
            })
            .collect();
        evals.push(Data { rows: en, cols: 1, x: (0..en).map(|_| r.below(n) as f64).collect(), y, w });
    }
    Case { label: "scores".into(), p, d, evals }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a model reproducing a chosen list of scores and 1-3 weighted evaluation sets; recorded metric values are compared with their definition and between permuted, rescaled, merged and duplicated evaluation sets; non-trivial when the metric is a number; distinct by metric value");
    ctx.stage("value", 12000, 200000, 30.0, 250.0, |w, r| {
        let c = case(r);
        let met = c.p.metric.unwrap();
        let (b, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let h = match history(&b) {
            Ok(Some(h)) => h.2,
            Ok(None) => return w.fail("history-missing", "no evaluation history".into(), &c),
            Err(e) => return w.fail("dump", e, &c),
        };
        let k = c.evals.len();
        if h.len() != k * m.trees.len() {
            return w.fail("history-shape", format!("{} values", h.len()), &c);
        }
        for (s, e) in c.evals.iter().enumerate() {
            let f = match w.call("predict", &c, || b.predict(&e.m(), false)) {
                Some(v) => v,
                None => return,
            };
            let want = metric(met, &e.y, &f, &e.w);
            let got = h[(m.trees.len() - 1) * k + s];
            if !close(got, want, 1e-8) {
                return w.fail("metric-value", format!("{:?} of set {} is reported as {} but is {} (scores {:?}, y {:?}, w {:?})", met, s, got, want, f, e.y, e.w), &c);
            }
            if met == Met::Log && e.w.iter().sum::<f64>() > 0.0 && !got.is_finite() {
                return w.fail("log-loss-finite", format!("log loss of finite predictions is {}", got), &c);
            }
            w.count(
                match met {
                    Met::Auc => "AUC values compared",
                    Met::Log => "LogLoss values compared",
                    Met::Rmse => "RMSE values compared",
                    Met::Rmsle => "RMSLE values compared",
                },
                1,
            );
            if !got.is_nan() {
                w.nontrivial(got.to_bits());
                w.sample(|| c.brief());
            }
        }
    });
    ctx.stage("invariance", 6000, 100000, 20.0, 200.0, |w, r| {
        let mut c = case(r);
        let e = c.evals[0].clone();
        let mut idx: Vec<usize> = (0..e.rows).collect();
        for i in (1..idx.len()).rev() {
            idx.swap(i, r.below(i + 1));
        }
        let perm = e.take(&idx);
        let mut scaled = e.clone();
        let s = r.pick(&[0.5, 2.0, 1024.0, 3.0, 1e-3]);
        for v in scaled.w.iter_mut() {
            *v *= s;
        }
        // integer weights against repetition
        let mut intw = e.clone();
        for v in intw.w.iter_mut() {
            *v = v.round().clamp(0.0, 4.0);
        }
        let mut rep_idx = vec![];
        for i in 0..e.rows {
            for _ in 0..intw.w[i] as usize {
                rep_idx.push(i);
            }
        }
        c.evals = vec![e.clone(), perm, scaled];
        if !rep_idx.is_empty() {
            let mut rep = e.take(&rep_idx);
            for v in rep.w.iter_mut() {
                *v = 1.0;
            }
            c.evals.push(intw);
            c.evals.push(rep);
        }
        let (b, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let h = match history(&b) {
            Ok(Some(h)) => h.2,
            Ok(None) => return w.fail("history-missing", "no evaluation history".into(), &c),
            Err(e) => return w.fail("dump", e, &c),
        };
        let k = c.evals.len();
        let last = &h[(m.trees.len() - 1) * k..];
        if !close(last[0], last[1], 1e-8) {
            return w.fail("row-order", format!("{:?} is {} but {} after reordering the rows", c.p.metric, last[0], last[1]), &c);
        }
        if !close(last[0], last[2], 1e-8) {
            return w.fail("weight-scale", format!("{:?} is {} but {} after scaling the weights by {}", c.p.metric, last[0], last[2], s), &c);
        }
        if k > 3 && last[3..].iter().all(|v| !v.is_nan()) && !close(last[3], last[4], 1e-8) {
            return w.fail("weight-multiplicity", format!("{:?} is {} with integer weights but {} with repeated rows", c.p.metric, last[3], last[4]), &c);
        }
        w.count("invariances compared", 2);
        if !last[0].is_nan() {
            w.nontrivial(last[0].to_bits());
        }
    });
}
