//! C22: invalid input is refused without side effects.
use super::Ctx;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::view::*;

const FIELDS: [&str; 10] = ["learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample", "top_rate", "other_rate", "colsample_bytree"];

fn put(p: &mut Params, k: usize, v: f64) {
    match k {
        0 => p.lr = v as f32,
        1 => p.l1 = v as f32,
        2 => p.l2 = v as f32,
        3 => p.gamma = v as f32,
        4 => p.mds = v as f32,
        5 => p.mlw = v as f32,
        6 => p.subsample = v as f32,
        7 => p.top_rate = v,
        8 => p.other_rate = v,
        _ => p.colsample = v,
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a constructor call or a fit with one or more invalid values at random positions (or none); non-trivial: the call had an invalid value and its effect on the model was observed; distinct by case contents and what was invalid");
    ctx.stage("constructor", 6000, 80000, 10.0, 60.0, |w, r| {
        let prof = Profile { max_rows: 4, ..Default::default() };
        let mut p = gen_params(r, &prof, 3);
        let show = |p: &Params| serde_json::json!({"params": p.to_json()});
        // every non-negative value is legal
        for k in 0..10 {
            if r.chance(0.2) {
                put(&mut p, k, r.pick(&[0.0, 1.0, 0.5, 1e-30, 1e30, -0.0, 7.0]));
            }
        }
        match sut(|| p.build()) {
            Ok(Ok(_)) => w.count("legal parameter sets accepted", 1),
            Ok(Err(e)) => return w.fail_v("refused", format!("legal parameters refused: {}", e), show(&p)),
            Err(e) => return w.fail_v("panic", e, show(&p)),
        }
        let k = r.below(10);
        let v = r.pick(&[f64::NAN, -1.0, -1e-30, -0.3, f64::NEG_INFINITY, -1e30, -f64::NAN]);
        put(&mut p, k, v);
        match sut(|| p.build()) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return w.fail_v("accepted", format!("{} = {} accepted", FIELDS[k], v), show(&p)),
            Err(e) => return w.fail_v("panic", e, show(&p)),
        }
        w.count("illegal parameter sets refused", 1);
        w.nontrivial(fvm::rng::Rng::new(k as u64, &format!("{:?}{}", p.to_json(), v), 0).u64());
    });
    ctx.stage("fit", 6000, 80000, 30.0, 200.0, |w, r| {
        let prof = Profile { evals: r.chance(0.6), max_rows: 120, big: 0.003, iters: 3, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if !c.evals.is_empty() && r.chance(0.4) {
            c.p.esr = Some(r.pick(&[1, 2]));
        }
        let mut b = match w.must("new", &c, || c.p.build()) {
            Some(b) => b,
            None => return,
        };
        if r.chance(0.7) && w.must("fit", &c, || c.fit_with(&mut b)).is_none() {
            return;
        }
        if !b.trees.is_empty() && r.chance(0.3) {
            let k = r.below(b.trees.len());
            b = b.set_prediction_iteration(Some(k));
        }
        b.insert_metadata("key".into(), "value".into());
        let before = match canon(&b) {
            Ok(v) => v,
            Err(e) => return w.fail("dump", e, &c),
        };
        let np = r.range(1, 10);
        let probe = gen_probe(r, &c.d, &c.p, np);
        let p0 = match w.call("predict", &c, || b.predict(&probe.m(), false)) {
            Some(v) => v,
            None => return,
        };
        // one invalid value (sometimes two) anywhere
        let mut bad = c.clone();
        if r.chance(0.3) {
            // other valid data and parameters around it
            let rows = r.range(1, 50);
            bad.d = gen_data(r, &prof, rows, c.d.cols, c.p.obj, c.p.missing);
        }
        let mut what = vec![];
        for _ in 0..if r.chance(0.2) { 2 } else { 1 } {
            let set = r.below(bad.evals.len() + 1);
            let (d, name) = if set == 0 { (&mut bad.d, "training".to_string()) } else { (&mut bad.evals[set - 1], format!("evaluation set {}", set - 1)) };
            let i = r.below(d.rows);
            let i = r.pick(&[0, d.rows - 1, i]);
            if r.chance(0.4) {
                d.y[i] = r.pick(&[f64::NAN, -f64::NAN]);
                what.push(format!("{} y[{}] NaN", name, i));
            } else {
                d.w[i] = r.pick(&[f64::NAN, -1.0, -1e-300, f64::NEG_INFINITY, -5e-324]);
                what.push(format!("{} weight[{}] = {}", name, i, d.w[i]));
            }
        }
        let what = what.join(", ");
        match sut(|| bad.fit_with(&mut b)) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => return w.fail("accepted", format!("fit accepted {}", what), &bad),
            Err(e) => return w.fail("panic", format!("fit with {}: {}", what, e), &bad),
        }
        let after = match canon(&b) {
            Ok(v) => v,
            Err(e) => return w.fail("dump", e, &c),
        };
        if let Some(d) = diff(&before, &after, "model".into()) {
            return w.fail("side-effect", format!("a fit refused for {} changed the model: {}", what, d), &bad);
        }
        match w.call("predict", &c, || b.predict(&probe.m(), false)) {
            Some(p1) if same_bits(&p0, &p1) => {}
            Some(_) => return w.fail("side-effect", format!("a fit refused for {} changed predictions", what), &bad),
            None => return,
        }
        // the same without weights: only targets matter there
        if r.chance(0.2) {
            let i = r.below(c.d.rows);
            let mut y = c.d.y.clone();
            y[i] = f64::NAN;
            match sut(|| b.fit_unweighted(&c.d.m(), &y, None)) {
                Ok(Err(_)) => {}
                Ok(Ok(())) => return w.fail("accepted", format!("fit_unweighted accepted y[{}] NaN", i), &bad),
                Err(e) => return w.fail("panic", e, &bad),
            }
            match canon(&b) {
                Ok(v) => {
                    if let Some(d) = diff(&before, &v, "model".into()) {
                        return w.fail("side-effect", format!("a refused fit_unweighted changed the model: {}", d), &bad);
                    }
                }
                Err(e) => return w.fail("dump", e, &c),
            }
        }
        w.count("refused fits checked for side effects", 1);
        w.nontrivial(bad.fingerprint() ^ what.len() as u64);
        // and the model still trains normally
        if r.chance(0.3) {
            if w.must("fit after a refused fit", &c, || c.fit_with(&mut b)).is_none() {
                return;
            }
            w.count("valid fits accepted", 1);
        }
        w.sample(|| serde_json::json!({"invalid": what, "case": c.brief()}));
    });
}
