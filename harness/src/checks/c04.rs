//! C04: every split is the best available one, its recorded gain is its loss
//! reduction, and a node stays a leaf only if no split helps.
use fvm::analysis::*;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::search::*;
use fvm::view::*;

fn check(w: &mut W, c: &Case) {
    let b = match w.must("fit", c, || c.train()) {
        Some(b) => b,
        None => return,
    };
    let m = match Model::of(&b) {
        Ok(m) => m,
        Err(e) => return w.fail("dump", e, c),
    };
    if !m.finite() {
        return w.count("overflowed models skipped", 1);
    }
    let an = match analyse(&m, c) {
        Ok(a) => a,
        Err(e) => return w.fail("malformed-tree", e, c),
    };
    let th = thresholds(&m, c);
    let all_cols = c.p.colsample == 1.0;
    for (ti, (t, a)) in m.trees.iter().zip(&an).enumerate() {
        let added = if c.p.cmb { 2 } else { 1 };
        let tiny = a.s.unit * a.s.unit;
        let open = t.leaves() + added <= c.p.max_leaves;
        for (i, nd) in t.nodes.iter().enumerate() {
            if !nd.is_leaf {
                let (want, err) = match split_gain(c, t, a, i) {
                    Some(v) => v,
                    None => {
                        w.count("splits not decidable", 1);
                        continue;
                    }
                };
                let got = nd.split_gain as f64;
                let scale = a.s.st[i].ag * 1e-30 + want.abs();
                if err < 0.25 * want.abs() + 1e-4 * tiny {
                    if !((got - want).abs() <= err + 1e-5 * scale + 1e-6 * tiny) {
                        return w.fail("gain", format!("tree {} node {} (feature {} < {}) records gain {} but the loss reduction is {} (allowed error {:e})", ti, i, nd.split_feature, nd.split_value, got, want, err), c);
                    }
                    w.count("split gains compared", 1);
                }
                if all_cols {
                    if let Some(bst) = best(c, t, a, i, &th) {
                        if bst.gain - bst.err > want + err + 1e-5 * scale {
                            return w.fail("not-best", format!("tree {} node {} splits on feature {} < {} with gain {} although feature {} < {} (missing left: {:?}) has gain {} (errors {:e}, {:e})", ti, i, nd.split_feature, nd.split_value, want, bst.feature, bst.value, bst.missing_left, bst.gain, err, bst.err), c);
                        }
                        w.count("splits compared with the best candidate", 1);
                    }
                }
            } else if open && all_cols && growable(c, t, a, i) {
                if let Some(bst) = best(c, t, a, i, &th) {
                    let g = c.p.gamma as f64;
                    if bst.gain - bst.err > g * (1.0 + 1e-6) + 1e-6 * tiny {
                        return w.fail("stopped-early", format!("tree {} node {} (depth {}) is a leaf although feature {} < {} (missing left: {:?}) has gain {} > gamma {} (error {:e})", ti, i, nd.depth, bst.feature, bst.value, bst.missing_left, bst.gain, g, bst.err), c);
                    }
                    w.count("leaves with candidates checked", 1);
                } else {
                    w.count("leaves without any certain candidate", 1);
                }
            }
        }
    }
    if m.splits() > 0 {
        w.nontrivial(m.hash());
        w.sample(|| c.brief());
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training set + parameters without row sampling; at every node all thresholds of all features are tried by brute force; non-trivial when at least one split was made; distinct by model contents");
    ctx.stage("exact", 15000, 300000, 20.0, 400.0, |w, r| {
        let prof = Profile { exact: true, sampling: false, force: false, max_rows: 120, iters: 4, ..Default::default() };
        check(w, &gen_case(r, &prof));
    });
    ctx.stage("scaled", 6000, 100000, 12.0, 200.0, |w, r| {
        let prof = Profile { sampling: false, force: false, max_rows: 100, iters: 3, extreme: false, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if c.p.obj == Obj::Sq {
            let s = 0.1f64.powi(r.range(1, 9) as i32);
            for y in c.d.y.iter_mut() {
                *y *= s;
            }
            c.p.base_score = 0.0;
            c.p.gamma *= (s * s) as f32;
            c.p.l1 *= s as f32;
            c.p.mds *= s as f32;
        }
        check(w, &c);
    });
    ctx.stage("generic", 15000, 300000, 20.0, 400.0, |w, r| {
        let prof = Profile { sampling: false, force: false, max_rows: 200, ..Default::default() };
        check(w, &gen_case(r, &prof));
    });
    // More cut points than the other stages have rows.
    ctx.stage("fine", 24, 300, 20.0, 200.0, |w, r| {
        let prof = Profile { min_rows: 1500, max_rows: 9000, big: 0.0, max_cols: 3, wide: 0.0, iters: 1, exact: r.chance(0.5), sampling: false, force: false, ..Default::default() };
        let mut c = gen_case(r, &prof);
        c.p.nbins = r.pick(&[500, 1000, 4096, 10000, 30000]);
        c.p.max_depth = c.p.max_depth.clamp(1, 2);
        let n = c.d.rows;
        if r.chance(0.7) {
            for v in c.d.x[..n].iter_mut() {
                if !c.p.is_missing(*v) {
                    *v = r.normal();
                }
            }
            // most of what there is to gain lies beyond the middle of the first column
            if c.p.obj == Obj::Sq {
                let cut = r.pick(&[0.5, 1.0, 1.5, -1.0]);
                let size = c.d.y.iter().fold(1.0f64, |a, v| a.max(v.abs()));
                for i in 0..n {
                    if c.d.x[i] > cut {
                        c.d.y[i] += size;
                    }
                }
            }
        }
        check(w, &c);
    });
}
