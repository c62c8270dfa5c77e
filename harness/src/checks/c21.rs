//! C21: refitting and logging leave no trace of earlier use.
use super::*;
use forust_ml::gradientbooster::ContributionsMethod;
use fvm::case::*;
use fvm::explain::*;
use fvm::gen::*;
use fvm::rng::Rng;
use fvm::run::*;
use fvm::view::*;
use std::sync::atomic::{AtomicU64, Ordering};

struct CountingLog;
static LINES: AtomicU64 = AtomicU64::new(0);
impl log::Log for CountingLog {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // the message is really formatted
        if !format!("{}", r.args()).is_empty() {
            LINES.fetch_add(1, Ordering::Relaxed);
        }
    }
    fn flush(&self) {}
}
static LOG: CountingLog = CountingLog;

fn state(w: &mut W, c: &Case, b: &GradientBooster) -> Option<serde_json::Value> {
    match canon(b) {
        Ok(v) => Some(v),
        Err(e) => {
            w.fail("dump", e, c);
            None
        }
    }
}

/// Fits `case` on a brand-new model with the same metadata.
fn fresh(w: &mut W, c: &Case, meta: &[(String, String)], unweighted: bool) -> Option<GradientBooster> {
    let mut f = w.must("new", c, || c.p.build())?;
    for (k, v) in meta {
        f.insert_metadata(k.clone(), v.clone());
    }
    fit(w, c, &mut f, unweighted)?;
    Some(f)
}
fn fit(w: &mut W, c: &Case, b: &mut GradientBooster, unweighted: bool) -> Option<()> {
    w.must("fit", c, || {
        if unweighted {
            let ev = if c.evals.is_empty() {
                None
            } else {
                Some(c.evals.iter().map(|e| (e.m(), e.y.as_slice(), e.w.as_slice())).collect())
            };
            b.fit_unweighted(&c.d.m(), &c.d.y, ev).map_err(|e| e.to_string())
        } else {
            c.fit_with(b)
        }
    })
}

fn read_only(w: &mut W, r: &mut Rng, c: &Case, b: &GradientBooster) -> Option<()> {
    let n = r.range(1, 12);
    let d = gen_probe(r, &c.d, &c.p, n);
    let par = r.chance(0.3);
    match r.below(8) {
        0 | 1 => {
            w.call("predict", c, || b.predict(&d.m(), par))?;
        }
        2 => {
            let m = cm_of(r.pick(&ALL_CM));
            if c.p.obj == Obj::Sq {
                // probability changes are for logistic models only
                w.call("predict_contributions", c, || b.predict_contributions(&d.m(), ContributionsMethod::Average, par))?;
            } else {
                w.call("predict_contributions", c, || b.predict_contributions(&d.m(), m, par))?;
            }
        }
        3 => {
            w.call("predict_leaf_indices", c, || b.predict_leaf_indices(&d.m()))?;
        }
        4 => {
            let f = r.below(c.d.cols);
            let v = d.get(0, f);
            w.call("value_partial_dependence", c, || b.value_partial_dependence(f, v))?;
        }
        5 => {
            use forust_ml::gradientbooster::ImportanceMethod::*;
            let k = r.below(5);
            let norm = r.chance(0.5);
            let m = match k {
                0 => Weight,
                1 => Gain,
                2 => TotalGain,
                3 => Cover,
                _ => TotalCover,
            };
            w.call("calculate_feature_importance", c, || b.calculate_feature_importance(m, norm).len())?;
        }
        6 => {
            w.must("json_dump", c, || b.json_dump().map_err(|e| e.to_string()))?;
        }
        _ => {
            w.call("text dump", c, || b.trees.iter().map(|t| format!("{}", t).len()).sum::<usize>())?;
        }
    }
    w.count("read-only calls", 1);
    Some(())
}

fn prof(r: &mut Rng) -> Profile {
    Profile { evals: r.chance(0.5), max_rows: 80, big: 0.002, max_cols: 4, iters: 6, wide: 0.0, ..Default::default() }
}
fn some_case(r: &mut Rng) -> Case {
    let p = prof(r);
    let mut c = gen_case(r, &p);
    if !c.evals.is_empty() && r.chance(0.6) {
        c.p.esr = Some(r.pick(&[0, 1, 2, 5]));
    }
    c
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a history of fits (same or other data, parameters, evaluation sets), read-only calls, refused fits, prediction-iteration changes and metadata on one model; after every fit it is compared, bit by bit, with a fresh model, after every other call with itself; non-trivial when a model with splits was refitted; distinct by the contents of the models");
    let _ = log::set_logger(&LOG);
    log::set_max_level(log::LevelFilter::Trace);
    ctx.stage("histories", 4000, 60000, 40.0, 400.0, |w, r| {
        let mut c = some_case(r);
        let mut b = match w.must("new", &c, || c.p.build()) {
            Some(b) => b,
            None => return,
        };
        let mut meta: Vec<(String, String)> = vec![];
        let mut fits = 0;
        let mut had_splits = false;
        for _step in 0..r.range(3, 12) {
            match r.below(10) {
                0..=4 => {
                    // change what is fitted
                    let mut loaded = false;
                    match r.below(6) {
                        0 => {}
                        1 => {
                            // other data, same parameters
                            let n = r.range(1, 80);
                            let p = prof(r);
                            c.d = gen_data(r, &p, n, c.d.cols, c.p.obj, c.p.missing);
                        }
                        2 => c.evals.clear(),
                        3 => {
                            let n = r.range(1, 30);
                            let e = gen_probe(r, &c.d, &c.p, n);
                            c.evals.push(e);
                        }
                        4 => {
                            c = some_case(r);
                            c.p.apply(&mut b);
                        }
                        _ => {
                            // some parameters, and through a save and load
                            c.p.iterations = r.below(7);
                            c.p.seed = r.u64() % 5;
                            c.p.max_depth = r.range(0, 5);
                            c.p.esr = r.pick(&[None, Some(1), Some(2)]);
                            c.p.apply(&mut b);
                            let s = match w.must("json_dump", &c, || b.json_dump().map_err(|e| e.to_string())) {
                                Some(s) => s,
                                None => return,
                            };
                            // overflowed models cannot be read back
                            if let Ok(l) = GradientBooster::from_json(&s) {
                                b = l;
                                loaded = true;
                            }
                        }
                    }
                    let unweighted = r.chance(0.2);
                    if unweighted {
                        for v in c.d.w.iter_mut() {
                            *v = 1.0;
                        }
                    }
                    let (i0, l0) = (c.p.init_base, c.p.l2);
                    c.sanitise();
                    if (i0, l0) != (c.p.init_base, c.p.l2) {
                        c.p.apply(&mut b);
                    }
                    if fit(w, &c, &mut b, unweighted).is_none() {
                        return;
                    }
                    fits += 1;
                    let f = match fresh(w, &c, &meta, unweighted) {
                        Some(f) => f,
                        None => return,
                    };
                    let (x, y) = match (state(w, &c, &f), state(w, &c, &b)) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return,
                    };
                    if let Some(d) = diff(&x, &y, "model".into()) {
                        return w.fail("refit", format!("fit number {}{} differs from a fresh model: {}", fits, if loaded { " (after loading)" } else { "" }, d), &c);
                    }
                    w.count("fits compared with a fresh model", 1);
                    if fits > 1 && had_splits {
                        w.count("refits of models with splits", 1);
                        w.nontrivial(c.fingerprint());
                    }
                    had_splits |= b.trees.iter().any(|t| t.nodes.len() > 1);
                }
                5 => {
                    let k = format!("k{}", r.below(3));
                    let v = format!("v{}", r.below(100));
                    b.insert_metadata(k.clone(), v.clone());
                    meta.retain(|(a, _)| *a != k);
                    meta.push((k, v));
                }
                6 => {
                    if !b.trees.is_empty() {
                        let k = r.below(b.trees.len());
                        b = b.set_prediction_iteration(Some(k));
                    }
                }
                7 => {
                    // a refused fit
                    let mut bad = c.clone();
                    let i = r.below(bad.d.rows);
                    bad.d.y[i] = f64::NAN;
                    let before = match state(w, &c, &b) {
                        Some(s) => s,
                        None => return,
                    };
                    match sut(|| bad.fit_with(&mut b)) {
                        Ok(Err(_)) => {}
                        Ok(Ok(())) => return w.fail("accepted", "fit accepted a NaN target".into(), &bad),
                        Err(e) => return w.fail("panic", e, &bad),
                    }
                    let after = match state(w, &c, &b) {
                        Some(s) => s,
                        None => return,
                    };
                    if let Some(d) = diff(&before, &after, "model".into()) {
                        return w.fail("refused-fit", format!("a refused fit changed the model: {}", d), &c);
                    }
                }
                _ => {
                    let before = match state(w, &c, &b) {
                        Some(s) => s,
                        None => return,
                    };
                    for _ in 0..r.range(1, 4) {
                        if read_only(w, r, &c, &b).is_none() {
                            return;
                        }
                    }
                    let after = match state(w, &c, &b) {
                        Some(s) => s,
                        None => return,
                    };
                    if let Some(d) = diff(&before, &after, "model".into()) {
                        return w.fail("read-only", format!("a read-only call changed the model: {}", d), &c);
                    }
                }
            }
        }
        w.sample(|| c.brief());
    });
    ctx.stage("logging", 3000, 40000, 15.0, 150.0, |w, r| {
        let mut c = some_case(r);
        c.p.log_iterations = 0;
        let a = match fresh(w, &c, &[], false) {
            Some(f) => f,
            None => return,
        };
        let mut l = c.clone();
        l.p.log_iterations = r.pick(&[1, 1, 2, 3, 7, 1000, usize::MAX]);
        let mut b = match fresh(w, &l, &[], false) {
            Some(f) => f,
            None => return,
        };
        b.log_iterations = 0;
        let (x, y) = match (state(w, &c, &a), state(w, &c, &b)) {
            (Some(x), Some(y)) => (x, y),
            _ => return,
        };
        if let Some(d) = diff(&x, &y, "model".into()) {
            return w.fail("logging", format!("logging every {} iterations changed the model: {}", l.p.log_iterations, d), &l);
        }
        w.count("runs with logging compared", 1);
        if a.trees.iter().any(|t| t.nodes.len() > 1) {
            w.nontrivial(l.fingerprint());
        }
    });
    *ctx.counts.lock().unwrap().entry("log lines formatted".into()).or_insert(0) += LINES.load(Ordering::Relaxed);
}
