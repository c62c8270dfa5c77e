//! C03: node weights are the learning rate times the regularised Newton step.
use fvm::analysis::*;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::view::*;

pub fn check_weights(w: &mut W, c: &Case, m: &Model, roles: &[Role]) {
    check_weights_with(w, c, m, roles, None)
}
pub fn check_weights_with(w: &mut W, c: &Case, m: &Model, roles: &[Role], fac: Option<&[Vec<f32>]>) {
    let an = match analyse_with(m, c, fac) {
        Ok(a) => a,
        Err(e) => return w.fail("malformed-tree", e, c),
    };
    let lr = c.p.lr as f64;
    for (ti, (t, a)) in m.trees.iter().zip(&an).enumerate() {
        for (i, nd) in t.nodes.iter().enumerate() {
            let nr = &a.n[i];
            // Averaging treatments rewrite internal nodes and missing leaves.
            if c.p.cmb && c.p.mnt == Mnt::AvgLeaf && (!nd.is_leaf || nr.role == Role::Missing) {
                continue;
            }
            if !roles.contains(&nr.role) {
                continue;
            }
            let want = match nr.w {
                Some(v) => v,
                None => {
                    w.count("weights not decidable", 1);
                    continue;
                }
            };
            if !nr.tol.is_finite() || nr.tol > 0.2 * want.abs().max(0.05) {
                w.count("weights not decidable", 1);
                continue;
            }
            let got = nd.weight_value as f64;
            if !((got - lr * want).abs() <= lr * nr.tol + 1e-7 * want.abs() * lr + 1e-12) {
                if std::env::var("FVM_SHOW").is_ok() {
                    for (k, n) in t.nodes.iter().enumerate() {
                        eprintln!("{} parent {:?} {:?} leaf {} f{} w {} ref {:?} tol {:e} lo {} hi {} rows {} g {} h {}", k, a.n[k].parent, a.n[k].role, n.is_leaf, n.split_feature, n.weight_value, a.n[k].w, a.n[k].tol, a.n[k].lo, a.n[k].hi, a.s.st[k].rows.len(), a.s.st[k].g, a.s.st[k].h);
                    }
                }
                return w.fail(
                    "weight",
                    format!("tree {} node {} ({:?}, {} rows, G={}, H={}) has weight {} but lr*step = {} (allowed error {:e})", ti, i, nr.role, a.s.st[i].rows.len(), a.s.st[i].g, a.s.st[i].h, got, lr * want, lr * nr.tol),
                    c,
                );
            }
            w.count("weights compared", 1);
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a training set + parameters without row sampling; gradients recomputed from the predictions of the earlier trees; non-trivial when at least one split was made; distinct by model contents");
    let go = |w: &mut W, c: Case| {
        let b = match w.must("fit", &c, || c.train()) {
            Some(b) => b,
            None => return,
        };
        let m = match Model::of(&b) {
            Ok(m) => m,
            Err(e) => return w.fail("dump", e, &c),
        };
        if !m.finite() {
            return w.count("overflowed models skipped", 1);
        }
        check_weights(w, &c, &m, &[Role::Root, Role::Left, Role::Right]);
        if m.splits() > 0 {
            w.nontrivial(m.hash());
            w.sample(|| c.brief());
        }
    };
    ctx.stage("exact", 5000, 80000, 14.0, 200.0, |w, r| {
        let prof = Profile { exact: true, sampling: false, ..Default::default() };
        go(w, gen_case(r, &prof));
    });
    ctx.stage("generic", 5000, 80000, 16.0, 250.0, |w, r| {
        let prof = Profile { sampling: false, ..Default::default() };
        go(w, gen_case(r, &prof));
    });
}
