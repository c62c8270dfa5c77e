//! C02: the rows a node was trained on are exactly the rows prediction routes
//! there (observed through the recorded covers).
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::view::*;

pub fn exact_cover_ok(c: &Case) -> bool {
    c.p.obj == Obj::Sq && c.d.w.iter().all(|w| (w * 2.0).fract() == 0.0) && c.d.w.iter().sum::<f64>() < 4e6
}

fn check(w: &mut W, c: &Case) {
    let b = match w.must("fit", c, || c.train()) {
        Some(b) => b,
        None => return,
    };
    let m = match Model::of(&b) {
        Ok(m) => m,
        Err(e) => return w.fail("dump", e, c),
    };
    if !m.finite() {
        // Overflowed Newton steps (l2 = 0): sums are no longer defined.
        return w.count("overflowed models skipped", 1);
    }
    let st = match replay(&m, c) {
        Ok(s) => s,
        Err(e) => return w.fail("malformed-tree", e, c),
    };
    let exact = exact_cover_ok(c);
    for (ti, (t, s)) in m.trees.iter().zip(&st).enumerate() {
        for (i, n) in t.nodes.iter().enumerate() {
            let want = s.st[i].h;
            let got = n.hessian_sum as f64;
            let tol = if exact { 0.0 } else { s.tol_h + 1e-6 * want };
            if !((got - want).abs() <= tol) {
                return w.fail(
                    "cover",
                    format!("tree {} node {} (depth {}) records cover {} but the {} training rows routed there have total hessian {} (allowed error {:e})", ti, i, n.depth, got, s.st[i].rows.len(), want, tol),
                    c,
                );
            }
            w.count(if exact { "node covers compared exactly" } else { "node covers compared" }, 1);
            if !n.is_leaf {
                let kids: f64 = n.children().iter().map(|k| t.nodes[*k].hessian_sum as f64).sum();
                let tol = if exact { 0.0 } else { 3.0 * s.tol_h + 1e-6 * want };
                if !((kids - got).abs() <= tol) {
                    return w.fail("conservation", format!("tree {} node {}: cover {} but children add up to {}", ti, i, got, kids), c);
                }
            }
        }
    }
    if m.splits() > 0 {
        w.nontrivial(m.hash());
        w.sample(|| c.brief());
    }
    w.count("splits observed", m.splits() as u64);
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training set + parameters without row sampling; every node of every tree compared; non-trivial when at least one split was made; distinct by model contents");
    ctx.stage("exact", 6000, 100000, 18.0, 250.0, |w, r| {
        let prof = Profile { exact: true, sampling: false, max_rows: 250, iters: 4, ..Default::default() };
        check(w, &gen_case(r, &prof));
    });
    ctx.stage("generic", 3000, 60000, 12.0, 200.0, |w, r| {
        let prof = Profile { sampling: false, ..Default::default() };
        check(w, &gen_case(r, &prof));
    });
    // more rows than 16 bits can count
    ctx.stage("huge", 6, 60, 12.0, 120.0, |w, r| {
        let exact = r.chance(0.5);
        let prof = Profile { exact, sampling: false, min_rows: 66000, max_rows: 90000, big: 0.0, max_cols: 3, wide: 0.0, iters: 2, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if c.d.rows < 66000 {
            c.d = gen_data(r, &prof, 66000 + c.d.rows, c.d.cols, c.p.obj, c.p.missing);
            c.sanitise();
        }
        check(w, &c);
    });
}
