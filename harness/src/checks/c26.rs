//! C26: a workload for the sanitizers; they, not this file, decide.
use super::*;
use forust_ml::gradientbooster::ContributionsMethod::*;
use fvm::gen::*;
use fvm::run::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
fn pools() -> &'static Vec<rayon::ThreadPool> {
    POOLS.get_or_init(|| [2, 3, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().expect("pool")).collect())
}
static BUSY: AtomicUsize = AtomicUsize::new(0);

fn read_everything(b: &GradientBooster, probe: &fvm::case::Data, log: bool, par: bool) -> f64 {
    struct Busy;
    impl Drop for Busy {
        fn drop(&mut self) {
            BUSY.fetch_sub(1, Ordering::Relaxed);
        }
    }
    BUSY.fetch_add(1, Ordering::Relaxed);
    let _busy = Busy;
    let m = probe.m();
    let mut s: f64 = b.predict(&m, par).iter().sum();
    for k in [Weight, Average, BranchDifference, MidpointDifference, ModeDifference, Shapley, ProbabilityChange] {
        if matches!(k, ProbabilityChange) && !log {
            continue;
        }
        s += b.predict_contributions(&m, k, par).iter().sum::<f64>();
    }
    s += b.predict_leaf_indices(&m).iter().sum::<usize>() as f64;
    for f in 0..probe.cols {
        s += b.value_partial_dependence(f, probe.get(0, f));
    }
    s += b.json_dump().map(|d| d.len()).unwrap_or(0) as f64;
    s += b.trees.iter().map(|t| format!("{}", t).len()).sum::<usize>() as f64;
    s
}

/// One of the reads alone, so that a panic in one does not hide the others.
fn read_one(b: &GradientBooster, probe: &fvm::case::Data, log: bool, i: usize) -> f64 {
    let m = probe.m();
    let mut kinds = vec![Weight, Average, BranchDifference, MidpointDifference, ModeDifference, Shapley, ProbabilityChange];
    match i {
        0 => b.predict(&m, false).iter().sum(),
        1 => b.predict_leaf_indices(&m).iter().sum::<usize>() as f64,
        i if i < 8 || log => b.predict_contributions(&m, kinds.swap_remove(i - 2), i % 2 == 0).iter().sum(),
        _ => b.predict(&m, true).iter().sum(),
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a fit on several threads followed by concurrent read-only use of the shared model and a reload, executed under the sanitizer; non-trivial when at least one split was made");
    let maxbusy = AtomicUsize::new(0);
    let body = |w: &mut W, r: &mut fvm::rng::Rng, prof: Profile| {
        let mut c = gen_case(r, &prof);
        c.p.parallel = r.chance(0.8);
        if r.chance(0.15) {
            // What such values mean is not claimed; that memory stays intact is.
            let n = c.d.x.len();
            for _ in 0..r.range(1, 6) {
                c.d.x[r.below(n)] = r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::MAX, -f64::MAX]);
            }
            w.count("fits with infinite or largest values", 1);
        }
        let log = matches!(c.p.obj, fvm::case::Obj::Log);
        let pool = &pools()[r.below(pools().len())];
        // panics are not undefined behaviour; other properties deal with them
        let b = match sut(|| pool.install(|| c.train())) {
            Ok(Ok(b)) => b,
            _ => {
                w.count("fits that ended in an error or panic", 1);
                return;
            }
        };
        w.count("fits under the sanitizer", 1);
        let split = b.trees.iter().any(|t| t.nodes.len() > 1);
        let np = r.range(1, 60);
        let probe = gen_probe(r, &c.d, &c.p, np);
        let k = r.range(1, 4);
        let got: Vec<Option<u64>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..k)
                .map(|i| {
                    let (b, probe, maxbusy) = (&b, &probe, &maxbusy);
                    s.spawn(move || {
                        maxbusy.fetch_max(BUSY.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
                        sut(|| if i % 2 == 0 { pool.install(|| read_everything(b, probe, log, true)) } else { read_everything(b, probe, log, i % 4 == 1) }).ok().map(|v| v.to_bits())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().ok().flatten()).collect()
        });
        w.count("concurrent readers under the sanitizer", got.len() as u64);
        if let Ok(d) = b.json_dump() {
            if let Ok(Ok(l)) = sut(|| GradientBooster::from_json(&d)) {
                let _ = sut(|| read_everything(&l, &probe, log, true));
                w.count("reloaded models used", 1);
            }
        }
        // Data that does not belong to the model: too few columns, or none of
        // its rows. A panic is a fine answer, reading outside the data is not.
        if probe.cols > 1 && r.chance(0.5) {
            let k = r.range(1, probe.cols - 1);
            let narrow = fvm::case::Data { x: probe.x[..probe.rows * k].to_vec(), rows: probe.rows, cols: k, ..probe.clone() };
            for i in 0..9 {
                let _ = sut(|| read_one(&b, &narrow, log, i));
            }
            w.count("reads of data with too few columns", 1);
        }
        // A model that was damaged on disk, where it still loads.
        if split && r.chance(0.3) {
            if let Ok(Ok(mut v)) = sut(|| b.json_dump()).map(|d| d.map(|d| serde_json::from_str::<serde_json::Value>(&d).unwrap_or_default())) {
                let key = r.pick(&["split_feature", "left_child", "right_child", "missing_node"]);
                let far = r.pick(&[1usize << 20, 1 << 40, 1000]);
                if let Some(trees) = v["trees"].as_array_mut() {
                    let t = r.below(trees.len());
                    let big = serde_json::json!(far);
                    if let Some(nodes) = trees[t]["nodes"].as_array_mut() {
                        for nd in nodes {
                            if nd["is_leaf"] == serde_json::json!(false) {
                                nd[key] = big.clone();
                            }
                        }
                    } else if let Some(nodes) = trees[t]["nodes"].as_object_mut() {
                        for (_, nd) in nodes {
                            if nd["is_leaf"] == serde_json::json!(false) {
                                nd[key] = big.clone();
                            }
                        }
                    }
                }
                if let Ok(Ok(l)) = sut(|| GradientBooster::from_json(&v.to_string())) {
                    for i in 0..9 {
                        let _ = sut(|| read_one(&l, &probe, log, i));
                    }
                    w.count("damaged models read", 1);
                }
            }
        }
        // refit on the same object
        if r.chance(0.3) {
            let mut b2 = b;
            let _ = sut(|| c.fit_with(&mut b2));
            w.count("refits", 1);
        }
        if split {
            w.nontrivial(c.fingerprint());
        }
        w.sample(|| c.brief());
    };
    ctx.stage("work", 400, 20000, 40.0, 600.0, |w, r| {
        let prof = Profile { max_rows: 200, big: 0.05, wide: 0.1, iters: 5, evals: r.chance(0.3), ..Default::default() };
        body(w, r, prof)
    });
    ctx.stage("degenerate", 200, 6000, 15.0, 200.0, |w, r| {
        let prof = Profile { min_rows: 1, max_rows: 4, big: 0.0, iters: 3, extreme: true, evals: r.chance(0.5), zero_weights: true, ..Default::default() };
        body(w, r, prof)
    });
    ctx.stage("large", 2, 40, 20.0, 300.0, |w, r| {
        let prof = Profile { min_rows: 8000, max_rows: 20000, big: 0.0, max_cols: 10, wide: 0.0, iters: 2, ..Default::default() };
        body(w, r, prof)
    });
    *ctx.counts.lock().unwrap().entry("max readers in flight".into()).or_insert(0) = maxbusy.load(Ordering::Relaxed) as u64;
}
