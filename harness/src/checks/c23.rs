//! C23: training and prediction terminate with finite results on legal input.
use super::*;
use fvm::case::*;
use fvm::explain::*;
use fvm::gen::*;
use fvm::rng::Rng;
use std::collections::BTreeMap;

/// Trains and uses a model in every way; anything but a normal return is
/// reported by the caller's monitors.
fn exercise(w: &mut W, r: &mut Rng, c: &Case, want_finite: bool) {
    if std::env::var("FVM_SHOW").is_ok() {
        eprintln!("{}", c.brief());
    }
    let (b, m) = match fit_model(w, c) {
        Some(v) => v,
        None => return,
    };
    if want_finite {
        for (i, t) in m.trees.iter().enumerate() {
            for n in &t.nodes {
                if !n.weight_value.is_finite() || !n.hessian_sum.is_finite() || !n.split_gain.is_finite() {
                    return w.fail("not-finite-tree", format!("tree {} node {}: weight {}, cover {}, gain {}", i, n.num, n.weight_value, n.hessian_sum, n.split_gain), c);
                }
                w.count("nodes found finite", 1);
            }
        }
    }
    let np = r.range(1, 25);
    let mut sets = vec![gen_probe(r, &c.d, &c.p, np)];
    if c.d.rows <= 400 {
        sets.push(c.d.clone());
    }
    for d in &sets {
        for par in [false, true] {
            if par && !r.chance(0.2) {
                continue;
            }
            let p = match w.call("predict", c, || b.predict(&d.m(), par)) {
                Some(v) => v,
                None => return,
            };
            if p.len() != d.rows {
                return w.fail("prediction-count", format!("{} predictions for {} rows", p.len(), d.rows), c);
            }
            if want_finite {
                if let Some(i) = p.iter().position(|v| !v.is_finite()) {
                    return w.fail("not-finite", format!("row {:?} predicts {}", d.row(i), p[i]), c);
                }
                w.count("predictions found finite", p.len() as u64);
            }
        }
        let small = d.rows <= 40;
        for cm in ALL_CM {
            if cm == Cm::Prob && c.p.obj == Obj::Sq {
                continue;
            }
            if !small && !r.chance(0.15) {
                continue;
            }
            match w.call("predict_contributions", c, || b.predict_contributions(&d.m(), cm_of(cm), false)) {
                Some(v) if v.len() == d.rows * (d.cols + 1) => w.count("explanations returned", 1),
                Some(v) => return w.fail("contribution-count", format!("{} contributions for {} rows of {} columns", v.len(), d.rows, d.cols), c),
                None => return,
            }
        }
        match w.call("predict_leaf_indices", c, || b.predict_leaf_indices(&d.m())) {
            Some(v) if v.len() == d.rows * m.n_pred_trees() => {}
            Some(v) => return w.fail("leaf-count", format!("{} leaf indices for {} rows and {} trees", v.len(), d.rows, m.n_pred_trees()), c),
            None => return,
        }
    }
    for f in 0..c.d.cols.min(4) {
        let v = sets[0].get(0, f);
        if w.call("value_partial_dependence", c, || b.value_partial_dependence(f, v)).is_none() {
            return;
        }
    }
    use forust_ml::gradientbooster::ImportanceMethod::*;
    for (norm, meth) in [(false, Weight), (true, Gain), (true, TotalGain), (false, Cover), (true, TotalCover)] {
        if w.call("calculate_feature_importance", c, || b.calculate_feature_importance(meth, norm).len()).is_none() {
            return;
        }
    }
    if w.call("text dump", c, || b.trees.iter().map(|t| format!("{}", t).len()).sum::<usize>()).is_none() {
        return;
    }
    if w.must("json_dump", c, || b.json_dump().map_err(|e| e.to_string())).is_none() {
        return;
    }
    if m.splits() > 0 {
        w.nontrivial(m.hash());
    } else {
        w.count("models without a split", 1);
    }
    w.sample(|| c.brief());
}

/// Legal but unusual parameter values.
fn unusual(r: &mut Rng, p: &mut Params, cols: usize) {
    for _ in 0..r.range(1, 4) {
        match r.below(22) {
            0 => p.mlw = 0.0,
            1 => p.l2 = r.pick(&[1e-3, 1e6, 1e-6]),
            2 => p.gamma = r.pick(&[0.0, 1e-9, 1e9]),
            3 => p.mds = r.pick(&[1e-6, 1e6]),
            4 => p.l1 = r.pick(&[1e6, 1e-6]),
            5 => p.lr = r.pick(&[0.0, 1.0, 1e-6]),
            6 => {
                p.samp = Samp::Random;
                p.subsample = r.pick(&[0.0, 1.0, 1e-3, 0.999]);
            }
            7 => {
                p.samp = Samp::Goss;
                p.top_rate = r.pick(&[0.0, 1.0, 0.01, 0.5]);
                p.other_rate = r.pick(&[0.5, 0.01, 0.3]);
            }
            8 => p.colsample = r.pick(&[0.01, 0.5, 0.999]),
            9 => p.max_depth = r.pick(&[0, 1, usize::MAX, 1000]),
            10 => p.max_leaves = r.pick(&[0, 1, 2, 3, usize::MAX]),
            11 => p.nbins = r.pick(&[1, 2, 3, 255, 256, 257, 1000, 65535, 65534]),
            12 => p.iterations = r.pick(&[0, 1, 40]),
            13 => p.base_score = r.pick(&[-50.0, 50.0, 1e3, -1e3, 0.0]),
            14 => p.mono = Some((0..cols).map(|j| (j, r.pick(&[-1i8, 1]))).collect::<BTreeMap<_, _>>()),
            15 => p.force = true,
            16 => p.terminate = (0..cols + 2).collect(),
            17 => p.mono = Some([(cols + 3, 1i8), (0, -1)].into_iter().collect()),
            18 => p.seed = u64::MAX,
            19 => p.mnt = r.pick(&[Mnt::None, Mnt::Parent, Mnt::AvgLeaf, Mnt::AvgNode]),
            20 => p.grow = r.pick(&[Grow::Depth, Grow::Loss]),
            _ => p.log_iterations = r.pick(&[1, usize::MAX]),
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training run on hostile data with unusual legal parameters followed by every kind of prediction and explanation; monitored for panic, process death, CPU time and non-finite output; non-trivial when the model has a split; distinct by model contents");
    ctx.stage("hostile", 8000, 150000, 40.0, 500.0, |w, r| {
        let prof = Profile { max_rows: r.pick(&[3, 30, 100, 300, 300, 300]), evals: r.chance(0.3), wide: 0.05, big: 0.005, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if r.chance(0.5) {
            unusual(r, &mut c.p, c.d.cols);
        }
        if !c.evals.is_empty() && r.chance(0.5) {
            c.p.esr = Some(r.pick(&[0, 1, 3, usize::MAX]));
        }
        match r.below(12) {
            0 => {
                let v = c.d.y[0];
                c.d.y.iter_mut().for_each(|y| *y = v);
            }
            1 => c.d.w.iter_mut().for_each(|w| *w = 0.0),
            2 => {
                let k = r.below(c.d.rows);
                for (i, w) in c.d.w.iter_mut().enumerate() {
                    *w = if i == k { 1.0 } else { 0.0 };
                }
            }
            3 => c.d.w.iter_mut().for_each(|w| *w *= 1e-12),
            4 => c.d.w.iter_mut().for_each(|w| *w *= 1e6),
            5 => {
                if c.p.obj == Obj::Sq {
                    let k = r.pick(&[1e9, 1e12, 1e-12, -1e10]);
                    c.d.y.iter_mut().for_each(|y| *y = (*y * k).clamp(-1e12, 1e12));
                }
            }
            6 => {
                // every value the missing marker
                let m = c.p.missing;
                if !m.is_infinite() {
                    c.d.x.iter_mut().for_each(|v| *v = m);
                }
            }
            _ => {}
        }
        // the property is for regularised models and finite optima
        if c.p.l2 == 0.0 {
            c.p.l2 = 0.01;
        }
        if c.d.w.iter().all(|w| *w == 0.0) {
            c.p.init_base = false;
        }
        c.sanitise();
        exercise(w, r, &c, true);
    });
    // No l2: weights may overflow, but nothing may panic or hang.
    ctx.stage("unregularised", 2000, 40000, 10.0, 120.0, |w, r| {
        let prof = Profile { max_rows: r.pick(&[2, 10, 100]), ..Default::default() };
        let mut c = gen_case(r, &prof);
        unusual(r, &mut c.p, c.d.cols);
        c.p.l2 = 0.0;
        c.p.force = false;
        c.p.mono = None;
        if c.p.mlw == 0.0 {
            c.p.mlw = 1e-3;
        }
        c.p.samp = Samp::None;
        c.sanitise();
        exercise(w, r, &c, false);
    });
    // Many distinct values around the capacity of the bin numbers.
    ctx.stage("many-bins", 14, 40, 120.0, 300.0, |w, r| {
        let (distinct, nbins) = [
            (65535usize, 65535u16), (65536, 65535), (65537, 65535), (65534, 65535), (70000, 65535), (65536, 65534), (65535, 65534), (65534, 65534), (100000, 65535),
            (70000, 256), (300, 255), (256, 255), (257, 256), (1000, 999),
        ][w.idx as usize % 14];
        let extra = r.below(50);
        let rows = distinct + extra;
        let mut x: Vec<f64> = (0..rows).map(|i| (i % distinct) as f64).collect();
        r.shuffle(&mut x);
        if w.idx % 3 == 0 {
            for _ in 0..20 {
                let i = r.below(rows);
                x[i] = f64::NAN;
            }
        }
        let y: Vec<f64> = x.iter().map(|v| if v.is_nan() || (*v / 50.0).floor() % 2.0 == 0.0 { 1.0 } else { 0.0 }).collect();
        let d = Data { rows, cols: 1, x, y, w: vec![1.0; rows] };
        let mut c = Case { label: format!("{} distinct values, {} bins", distinct, nbins), p: Params { nbins, iterations: 2, max_depth: 4, cmb: r.chance(0.5), ..Default::default() }, d, evals: vec![] };
        c.p.obj = r.pick(&[Obj::Log, Obj::Sq]);
        let (b, m) = match w.must_v("fit", || c.train(), || serde_json::json!({"label": c.label})) {
            Some(b) => match Model::of(&b) {
                Ok(m) => (b, m),
                Err(e) => return w.fail_v("dump", e, serde_json::json!({"label": c.label})),
            },
            None => return,
        };
        let p = b.predict(&c.d.m(), false);
        if p.iter().any(|v| !v.is_finite()) || m.splits() == 0 {
            return w.fail_v("not-finite", "no finite split model".into(), serde_json::json!({"label": c.label}));
        }
        w.count("models around the bin capacity", 1);
        w.nontrivial(m.hash());
    });
    // Degenerate shapes, enumerated.
    ctx.stage("shapes", 600, 6000, 10.0, 60.0, |w, r| {
        let rows = w.idx as usize % 5 + 1;
        let cols = (w.idx as usize / 5) % 4 + 1;
        let prof = Profile { min_rows: rows, max_rows: rows, ..Default::default() };
        let mut p = gen_params(r, &prof, cols);
        p.mlw = r.pick(&[0.0, 1e-6, 1.0]);
        if p.l2 == 0.0 {
            p.l2 = 1.0;
        }
        let d = gen_data(r, &prof, rows, cols, p.obj, p.missing);
        let mut c = Case { label: "tiny".into(), p, d, evals: vec![] };
        unusual(r, &mut c.p, cols);
        c.sanitise();
        exercise(w, r, &c, true);
    });
    // Long runs.
    ctx.stage("long", 16, 60, 60.0, 300.0, |w, r| {
        let prof = Profile { min_rows: 50, max_rows: 400, big: 0.0, extreme: false, ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.iterations = r.range(200, 500);
        c.p.lr = r.pick(&[0.3, 1.0, 0.05]);
        if c.p.l2 == 0.0 {
            c.p.l2 = 0.5;
        }
        c.sanitise();
        exercise(w, r, &c, true);
        w.count("runs of hundreds of trees", 1);
    });
}
