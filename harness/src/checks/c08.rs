//! C08: results do not depend on threads, timing or repetition.
use super::*;
use forust_ml::gradientbooster::ContributionsMethod;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::view::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::OnceLock;

static POOLS: OnceLock<Vec<(usize, rayon::ThreadPool)>> = OnceLock::new();
fn pools() -> &'static Vec<(usize, rayon::ThreadPool)> {
    POOLS.get_or_init(|| {
        [1, 2, 3, 5, 8, 16]
            .iter()
            .map(|n| (*n, rayon::ThreadPoolBuilder::new().num_threads(*n).build().expect("pool")))
            .collect()
    })
}

/// Number of operations of the library in progress right now.
static BUSY: AtomicUsize = AtomicUsize::new(0);
fn busy<T>(w: &AtomicUsize, f: impl FnOnce() -> T) -> T {
    let n = BUSY.fetch_add(1, Ordering::SeqCst) + 1;
    w.fetch_max(n, Ordering::SeqCst);
    let v = f();
    BUSY.fetch_sub(1, Ordering::SeqCst);
    v
}

fn cmp(w: &mut W, c: &Case, base: &Model, other: &Result<GradientBooster, String>, what: &str) -> bool {
    let b = match other {
        Ok(b) => b,
        Err(e) => {
            w.fail("unexpected-error", format!("{}: {}", what, e), c);
            return false;
        }
    };
    let m = match Model::of(b) {
        Ok(m) => m,
        Err(e) => {
            w.fail("dump", e, c);
            return false;
        }
    };
    if m.base_score.to_bits() != base.base_score.to_bits() || !m.same_trees(base) || m.best_iteration != base.best_iteration || m.prediction_iteration != base.prediction_iteration {
        let t = m.trees.iter().zip(&base.trees).position(|(a, b)| !a.same(b));
        w.fail("different-model", format!("fitting {} gives a different model than the sequential fit (first differing tree {:?}, {} against {} trees)", what, t, m.trees.len(), base.trees.len()), c);
        return false;
    }
    w.count("repeated fits compared", 1);
    true
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a data set + parameters; the sequential fit is the reference; repeated with other pools, flags and concurrent users; non-trivial when at least one split was made; distinct by model contents; max_in_flight is the largest number of library calls seen running at the same time");
    let maxbusy = AtomicUsize::new(0);
    ctx.stage("fits", 2500, 60000, 35.0, 400.0, |w, r| {
        let prof = Profile { max_rows: 600, big: 0.05, wide: 0.1, evals: r.chance(0.15), ..Default::default() };
        let mut c = gen_case(r, &prof);
        if !c.evals.is_empty() {
            c.p.esr = Some(r.range(1, 3));
        }
        c.p.parallel = false;
        let (b0, m0) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        // the same again, in other circumstances
        let again = |par: bool| {
            let mut c2 = c.clone();
            c2.p.parallel = par;
            busy(&maxbusy, || sut(|| c2.train()).and_then(|x| x))
        };
        let mut ok = cmp(w, &c, &m0, &again(true), "with parallel=true");
        ok = ok && cmp(w, &c, &m0, &again(false), "a second time");
        let (n, pool) = &pools()[r.below(pools().len())];
        ok = ok && cmp(w, &c, &m0, &pool.install(|| again(true)), &format!("in a pool of {} threads", n));
        if ok && r.chance(0.3) {
            // several users at once, some in a shared pool
            let k = r.range(2, 4);
            let res: Vec<Result<GradientBooster, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..k)
                    .map(|i| {
                        let again = &again;
                        let pool = &pools()[(i + 1) % pools().len()].1;
                        s.spawn(move || if i % 2 == 0 { pool.install(|| again(true)) } else { again(i % 4 == 1) })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
            });
            for v in &res {
                if !cmp(w, &c, &m0, v, &format!("together with {} other fits", k - 1)) {
                    return;
                }
                w.count("concurrent fits", 1);
            }
        }
        if !ok {
            return;
        }
        // predictions
        let np = r.range(1, 400);
        let probe = gen_probe(r, &c.d, &c.p, np);
        let p0 = match w.call("predict", &c, || b0.predict(&probe.m(), false)) {
            Some(v) => v,
            None => return,
        };
        for _ in 0..3 {
            let (n, pool) = &pools()[r.below(pools().len())];
            let p = pool.install(|| busy(&maxbusy, || sut(|| b0.predict(&probe.m(), true))));
            match p {
                Ok(p) if same_bits(&p, &p0) => w.count("parallel predictions compared", p.len() as u64),
                Ok(_) => return w.fail("different-prediction", format!("predict with parallel=true in a pool of {} threads differs from the sequential one", n), &c),
                Err(e) => return w.fail("panic", e, &c),
            }
        }
        if m0.splits() > 0 {
            w.nontrivial(m0.hash());
            w.sample(|| c.brief());
        }
    });
    ctx.stage("readers", 600, 10000, 12.0, 150.0, |w, r| {
        let prof = Profile { max_rows: 300, iters: 8, ..Default::default() };
        let c = gen_case(r, &prof);
        let (b, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return;
        }
        let np = r.range(1, 120);
        let probe = gen_probe(r, &c.d, &c.p, np);
        let use_all = |par: bool| -> Result<(Vec<f64>, Vec<f64>, Vec<f64>, Vec<usize>, Vec<f64>, String), String> {
            busy(&maxbusy, || {
                sut(|| {
                    let v = (0..c.d.cols).map(|f| b.value_partial_dependence(f, 0.5)).collect();
                    (
                        b.predict(&probe.m(), par),
                        b.predict_contributions(&probe.m(), ContributionsMethod::Weight, par),
                        b.predict_contributions(&probe.m(), ContributionsMethod::Shapley, par),
                        b.predict_leaf_indices(&probe.m()),
                        v,
                        canon(&b).map(|v| v.to_string()).unwrap_or_default(),
                    )
                })
            })
        };
        let want = match use_all(false) {
            Ok(v) => v,
            Err(e) => return w.fail("panic", e, &c),
        };
        let k = r.range(2, 6);
        let got: Vec<_> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..k)
                .map(|i| {
                    let use_all = &use_all;
                    s.spawn(move || {
                        if i % 3 == 2 {
                            pools()[i % pools().len()].1.install(|| use_all(true))
                        } else {
                            use_all(i % 2 == 0)
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
        });
        for g in got {
            let g = match g {
                Ok(g) => g,
                Err(e) => return w.fail("panic", format!("concurrent read-only use: {}", e), &c),
            };
            let pd_ok = g.4.iter().zip(&want.4).all(|(a, b)| (a - b).abs() <= 1e-9 * (1.0 + b.abs()));
            let part = if !same_bits(&g.0, &want.0) {
                "predictions"
            } else if !same_bits(&g.1, &want.1) {
                "Weight contributions"
            } else if !same_bits(&g.2, &want.2) {
                "Shapley contributions"
            } else if g.3 != want.3 {
                "leaf indices"
            } else if !pd_ok {
                "partial dependence"
            } else if g.5 != want.5 {
                "dump"
            } else {
                w.count("concurrent readers agreeing", 1);
                continue;
            };
            return w.fail("concurrent-reader", format!("{} of {} concurrent readers differ from sequential use", part, k), &c);
        }
        if m.splits() > 0 {
            w.nontrivial(m.hash());
        }
    });
    ctx.stage("large", 6, 60, 25.0, 300.0, |w, r| {
        // big enough that every parallel loop is split between threads
        let prof = Profile { min_rows: 20000, max_rows: 60000, big: 0.0, max_cols: 12, wide: 0.0, iters: 3, ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.max_depth = c.p.max_depth.clamp(3, 6);
        c.p.parallel = false;
        let (b0, m0) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let brief = Case { label: "large".into(), p: c.p.clone(), d: c.d.take(&[0]), evals: vec![] };
        c.p.parallel = true;
        let (n, pool) = &pools()[r.below(pools().len())];
        let o = pool.install(|| sut(|| c.train()).and_then(|x| x));
        if !cmp(w, &brief, &m0, &o, &format!("{} rows in a pool of {} threads", c.d.rows, n)) {
            return;
        }
        let p0 = b0.predict(&c.d.m(), false);
        let p1 = pool.install(|| b0.predict(&c.d.m(), true));
        if !same_bits(&p0, &p1) {
            return w.fail("different-prediction", format!("predict on {} rows in a pool of {} threads differs from the sequential one", c.d.rows, n), &brief);
        }
        w.count("large parallel predictions compared", p0.len() as u64);
        w.nontrivial(m0.hash());
    });
    ctx.counts.lock().unwrap().insert("max_in_flight".into(), maxbusy.load(Ordering::SeqCst) as u64);
}
