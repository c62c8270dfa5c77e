//! C25: every way of configuring a model means the same.
use super::*;
use fvm::case::*;
use fvm::gen::*;
use fvm::rng::Rng;
use fvm::view::*;

/// Sets one parameter through its setter (or, where there is none, its field).
fn set(b: GradientBooster, p: &Params, k: usize) -> GradientBooster {
    let mut b = b;
    match k {
        0 => b.set_objective_type(obj_of(p.obj)),
        1 => b.set_iterations(p.iterations),
        2 => b.set_learning_rate(p.lr),
        3 => b.set_max_depth(p.max_depth),
        4 => b.set_max_leaves(p.max_leaves),
        5 => b.set_l1(p.l1),
        6 => b.set_l2(p.l2),
        7 => b.set_gamma(p.gamma),
        8 => b.set_max_delta_step(p.mds),
        9 => b.set_min_leaf_weight(p.mlw),
        10 => b.set_base_score(p.base_score),
        11 => b.set_nbins(p.nbins),
        12 => b.set_parallel(p.parallel),
        13 => b.set_allow_missing_splits(p.ams),
        14 => b.set_monotone_constraints(p.mono_map()),
        15 => b.set_subsample(p.subsample),
        16 => b.set_colsample_bytree(p.colsample),
        17 => b.set_seed(p.seed),
        18 => b.set_missing(p.missing),
        19 => b.set_create_missing_branch(p.cmb),
        20 => b.set_sample_method(samp_of(p.samp)),
        21 => b.set_evaluation_metric(p.metric.map(metric_of)),
        22 => b.set_early_stopping_rounds(p.esr),
        23 => b.set_initialize_base_score(p.init_base),
        24 => b.set_terminate_missing_features(p.terminate_set()),
        25 => {
            b.top_rate = p.top_rate;
            b
        }
        26 => {
            b.other_rate = p.other_rate;
            b
        }
        27 => {
            b.grow_policy = grow_of(p.grow);
            b
        }
        28 => {
            b.missing_node_treatment = mnt_of(p.mnt);
            b
        }
        29 => {
            b.log_iterations = p.log_iterations;
            b
        }
        _ => {
            b.force_children_to_bound_parent = p.force;
            b
        }
    }
}
const N: usize = 31;
const NAMES: [&str; N] = [
    "objective_type", "iterations", "learning_rate", "max_depth", "max_leaves", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight",
    "base_score", "nbins", "parallel", "allow_missing_splits", "monotone_constraints", "subsample", "colsample_bytree", "seed", "missing",
    "create_missing_branch", "sample_method", "evaluation_metric", "early_stopping_rounds", "initialize_base_score",
    "terminate_missing_features", "top_rate", "other_rate", "grow_policy", "missing_node_treatment", "log_iterations",
    "force_children_to_bound_parent",
];

fn documented() -> Params {
    Params {
        obj: Obj::Log,
        iterations: 10,
        lr: 0.3,
        max_depth: 5,
        max_leaves: usize::MAX,
        l1: 0.0,
        l2: 1.0,
        gamma: 0.0,
        mds: 0.0,
        mlw: 1.0,
        base_score: 0.5,
        nbins: 256,
        parallel: true,
        ams: true,
        mono: None,
        subsample: 1.0,
        top_rate: 0.1,
        other_rate: 0.2,
        colsample: 1.0,
        seed: 0,
        missing: f64::NAN,
        cmb: false,
        samp: Samp::None,
        grow: Grow::Depth,
        metric: None,
        esr: None,
        init_base: true,
        terminate: Default::default(),
        mnt: Mnt::Parent,
        log_iterations: 0,
        force: false,
    }
}

/// One field of a dump in our own reading of it against the value asked for.
fn reads_as(v: &serde_json::Value, p: &Params, k: usize) -> bool {
    let f = |x: f64, y: f64| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan());
    let f32_ = |v: &serde_json::Value, y: f32| f(fv(v) as f32 as f64, y as f64);
    let name = |s: &str| v.as_str().map(|t| t == s).unwrap_or(false);
    match k {
        0 => name(if p.obj == Obj::Log { "LogLoss" } else { "SquaredLoss" }),
        1 => v.as_u64() == Some(p.iterations as u64),
        2 => f32_(v, p.lr),
        3 => v.as_u64() == Some(p.max_depth as u64),
        4 => v.as_u64() == Some(p.max_leaves as u64),
        5 => f32_(v, p.l1),
        6 => f32_(v, p.l2),
        7 => f32_(v, p.gamma),
        8 => f32_(v, p.mds),
        9 => f32_(v, p.mlw),
        10 => f(fv(v), p.base_score),
        11 => v.as_u64() == Some(p.nbins as u64),
        12 => v.as_bool() == Some(p.parallel),
        13 => v.as_bool() == Some(p.ams),
        15 => f32_(v, p.subsample),
        16 => f(fv(v), p.colsample),
        17 => v.as_u64() == Some(p.seed),
        18 => f(fv(v), p.missing),
        19 => v.as_bool() == Some(p.cmb),
        22 => v.as_u64().map(|x| x as usize) == p.esr,
        23 => v.as_bool() == Some(p.init_base),
        25 => f(fv(v), p.top_rate),
        26 => f(fv(v), p.other_rate),
        29 => v.as_u64() == Some(p.log_iterations as u64),
        30 => v.as_bool() == Some(p.force),
        _ => true,
    }
}

fn random_params(r: &mut Rng, cols: usize) -> Params {
    let prof = Profile { max_cols: cols, ..Default::default() };
    let mut p = gen_params(r, &prof, cols);
    p.esr = r.pick(&[None, Some(1), Some(3)]);
    p.log_iterations = r.pick(&[0, 0, 1, 5]);
    if p.samp == Samp::None && r.chance(0.5) {
        p.subsample = r.pick(&[0.5, 0.25]);
        p.top_rate = r.pick(&[0.3, 0.05]);
        p.other_rate = r.pick(&[0.4, 0.15]);
    }
    p
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a parameter set given in several ways (constructor, setters in random order on a default or other model, fields, load of a dump), each also used to train; non-trivial when the trained model has a split; distinct by parameters and data");
    ctx.stage("default", 1, 1, 5.0, 5.0, |w, _| {
        let d = canon(&GradientBooster::default());
        let p = documented();
        let e = p.build().and_then(|b| canon(&b));
        let show = serde_json::json!({"params": p.to_json()});
        match (d, e) {
            (Ok(d), Ok(e)) => {
                if let Some(x) = diff(&e, &d, "default".into()) {
                    return w.fail_v("default", format!("a documented default differs: {}", x), show);
                }
                w.count("documented defaults compared", N as u64);
            }
            (Err(e), _) | (_, Err(e)) => return w.fail_v("dump", e, show),
        }
    });
    ctx.stage("ways", 6000, 80000, 30.0, 250.0, |w, r| {
        let prof = Profile { evals: r.chance(0.4), max_rows: 100, big: 0.002, iters: 4, ..Default::default() };
        let mut c = gen_case(r, &prof);
        let cols = c.d.cols;
        if r.chance(0.7) {
            let (o, m) = (c.p.obj, c.p.missing);
            c.p = random_params(r, cols);
            c.p.obj = o;
            c.p.missing = m;
            c.p.iterations = c.p.iterations.min(4);
        }
        if r.chance(0.1) {
            let o = c.p.obj;
            let m = c.p.missing;
            c.p = Params { obj: o, missing: m, ..documented() };
        }
        c.sanitise();
        let want = match w.must("new", &c, || c.p.build()).map(|b| canon(&b)) {
            Some(Ok(v)) => v,
            Some(Err(e)) => return w.fail("dump", e, &c),
            None => return,
        };
        for k in 0..N {
            if !reads_as(&want[NAMES[k]], &c.p, k) {
                return w.fail("constructor", format!("constructor stores {} = {}", NAMES[k], want[NAMES[k]]), &c);
            }
        }
        // setters, any order, some of them twice, on a default or other model
        let start = if r.chance(0.5) { documented() } else { random_params(r, cols) };
        let mut b = match w.must("new", &c, || start.build()) {
            Some(b) => if r.chance(0.3) { GradientBooster::default() } else { b },
            None => return,
        };
        let mut order: Vec<usize> = (0..N).collect();
        r.shuffle(&mut order);
        let other = random_params(r, cols);
        for k in 0..N {
            if r.chance(0.15) {
                b = set(b, &other, k);
            }
        }
        for k in &order {
            let before = match canon(&b) {
                Ok(v) => v,
                Err(e) => return w.fail("dump", e, &c),
            };
            b = set(b, &c.p, *k);
            let mut after = match canon(&b) {
                Ok(v) => v,
                Err(e) => return w.fail("dump", e, &c),
            };
            if let Some(d) = diff(&want[NAMES[*k]], &after[NAMES[*k]], NAMES[*k].into()) {
                return w.fail("setter", format!("set_{} stores another value: {}", NAMES[*k], d), &c);
            }
            after[NAMES[*k]] = before[NAMES[*k]].clone();
            if let Some(d) = diff(&before, &after, "model".into()) {
                return w.fail("setter-side-effect", format!("set_{} also changed {}", NAMES[*k], d), &c);
            }
            w.count("setter calls compared", 1);
        }
        // fields
        let mut f = GradientBooster::default();
        c.p.apply(&mut f);
        // load
        let mut l = match w.must("from_json", &c, || GradientBooster::from_json(&c.p.build()?.json_dump().map_err(|e| e.to_string())?).map_err(|e| e.to_string())) {
            Some(b) => b,
            None => return,
        };
        let mut n = match w.must("new", &c, || c.p.build()) {
            Some(b) => b,
            None => return,
        };
        let mut reference = None;
        for (name, b) in [("constructor", &mut n), ("setters", &mut b), ("fields", &mut f), ("loaded", &mut l)] {
            match canon(b) {
                Ok(v) => {
                    if let Some(d) = diff(&want, &v, name.into()) {
                        return w.fail("parameters", format!("configured by {}: {}", name, d), &c);
                    }
                }
                Err(e) => return w.fail("dump", e, &c),
            }
            if w.must("fit", &c, || c.fit_with(b)).is_none() {
                return;
            }
            let v = match canon(b) {
                Ok(v) => v,
                Err(e) => return w.fail("dump", e, &c),
            };
            // training does not touch the parameters (but the base score)
            for k in 0..N {
                if (k != 10 || !c.p.init_base) && diff(&want[NAMES[k]], &v[NAMES[k]], String::new()).is_some() {
                    return w.fail("fit-changes-parameter", format!("fit changed {} from {} to {}", NAMES[k], want[NAMES[k]], v[NAMES[k]]), &c);
                }
            }
            match &reference {
                None => reference = Some(v),
                Some(x) => {
                    if let Some(d) = diff(x, &v, "model".into()) {
                        return w.fail("trained", format!("configured by {} trains differently: {}", name, d), &c);
                    }
                    w.count("trained models compared", 1);
                }
            }
        }
        // unit weights and no weights
        if r.chance(0.3) {
            let mut u = c.clone();
            for v in u.d.w.iter_mut() {
                *v = 1.0;
            }
            u.sanitise();
            let x = w.must("fit", &u, || u.train());
            let y = w.must("fit_unweighted", &u, || {
                let mut b = u.p.build()?;
                let ev = if u.evals.is_empty() { None } else { Some(u.evals.iter().map(|e| (e.m(), e.y.as_slice(), e.w.as_slice())).collect()) };
                b.fit_unweighted(&u.d.m(), &u.d.y, ev).map_err(|e| e.to_string())?;
                Ok(b)
            });
            if let (Some(x), Some(y)) = (x, y) {
                match (canon(&x), canon(&y)) {
                    (Ok(x), Ok(y)) => {
                        if let Some(d) = diff(&x, &y, "model".into()) {
                            return w.fail("unweighted", format!("fit_unweighted differs from unit weights: {}", d), &u);
                        }
                        w.count("unweighted fits compared", 1);
                    }
                    (Err(e), _) | (_, Err(e)) => return w.fail("dump", e, &u),
                }
            } else {
                return;
            }
        }
        if n.trees.iter().any(|t| t.nodes.len() > 1) {
            w.nontrivial(c.fingerprint());
            w.sample(|| c.brief());
        }
    });
}
