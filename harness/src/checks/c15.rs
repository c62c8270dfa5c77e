//! C15: boosting starts at the objective's optimum and only descends.
use super::*;
use fvm::case::*;
use fvm::gen::*;

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training run; the base score is compared with the optimum of the weighted loss, the loss with that after every prefix of the trees; non-trivial when a tree with a split reduced the loss; distinct by model contents");
    ctx.stage("base", 6000, 100000, 15.0, 150.0, |w, r| {
        let prof = Profile { iters: 3, evals: r.chance(0.1), ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.init_base = true;
        c.p.base_score = r.pick(&[0.5, 100.0, -7.0, 0.0]);
        c.sanitise();
        let (b, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let sw: f64 = c.d.w.iter().sum();
        let sy: f64 = c.d.w.iter().zip(&c.d.y).map(|(w, y)| w * y).sum();
        let say: f64 = c.d.w.iter().zip(&c.d.y).map(|(w, y)| w * y.abs()).sum();
        if !c.p.init_base {
            if m.base_score != c.p.base_score {
                return w.fail("base-score-kept", format!("initialize_base_score is off but the base score is {}", m.base_score), &c);
            }
            return w.count("configured base scores confirmed", 1);
        }
        let (want, tol) = match c.p.obj {
            Obj::Sq => (sy / sw, 1e-11 * say / sw + 1e-300),
            Obj::Log => {
                let neg: f64 = c.d.w.iter().zip(&c.d.y).map(|(w, y)| w * (1.0 - y)).sum();
                ((sy / neg).ln(), 1e-9)
            }
        };
        if !((m.base_score - want).abs() <= tol) {
            return w.fail("base-score", format!("base score {} but the optimum is {}", m.base_score, want), &c);
        }
        // predictions start there
        let pr = match w.call("predict", &c, || b.predict(&c.d.m(), false)) {
            Some(v) => v,
            None => return,
        };
        if m.trees.is_empty() && pr.iter().any(|v| *v != m.base_score) {
            return w.fail("base-prediction", "a model without trees does not predict its base score".into(), &c);
        }
        w.count("initialised base scores compared", 1);
        w.nontrivial(m.base_score.to_bits());
    });
    ctx.stage("descent", 8000, 150000, 25.0, 250.0, |w, r| {
        let prof = Profile { iters: 15, sampling: false, constraints: false, force: false, obj: Some(Obj::Sq), ..Default::default() };
        let mut c = gen_case(r, &prof);
        if c.p.cmb {
            c.p.mnt = Mnt::None;
        }
        c.p.lr = r.pick(&[0.3, 1.0, 0.05, 0.7, 1.5]);
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() {
            return w.count("overflowed models skipped", 1);
        }
        let d = &c.d;
        let rows: Vec<Vec<f64>> = (0..d.rows).map(|i| d.row(i)).collect();
        let mut f = vec![m.base_score; d.rows];
        let loss = |f: &[f64]| -> f64 { (0..d.rows).map(|i| d.w[i] * (d.y[i] - f[i]) * (d.y[i] - f[i])).sum() };
        // f64 rounding of the predictions themselves
        let floor: f64 = 1e-24 * (0..d.rows).map(|i| d.w[i] * (d.y[i] * d.y[i] + m.base_score * m.base_score)).sum::<f64>();
        let mut prev = loss(&f);
        let first = prev;
        for (ti, t) in m.trees.iter().enumerate() {
            // size of the rounding error of f32 gradients and weights
            let mut err = 0.0;
            for i in 0..d.rows {
                let l = match t.leaf(&rows[i], &c.p) {
                    Ok(l) => l,
                    Err(e) => return w.fail("malformed-tree", e, &c),
                };
                let wt = t.nodes[l].weight_value as f64;
                err += d.w[i] * (d.y[i] - f[i]).abs() * wt.abs();
                f[i] += wt;
            }
            let cur = loss(&f);
            if !(cur <= prev + 1e-4 * err + 1e-6 * prev + floor + 1e-30) {
                return w.fail("loss-rises", format!("weighted squared loss {} before tree {} and {} after it (learning rate {})", prev, ti, cur, c.p.lr), &c);
            }
            w.count("trees whose loss was compared", 1);
            prev = cur;
        }
        if m.splits() > 0 && prev < first {
            w.nontrivial(m.hash());
            w.sample(|| c.brief());
        }
    });
}
