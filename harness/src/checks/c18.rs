//! C18: leaf indices and the text dump describe the trees that predict.
use super::*;
use crate::checks::c11::pick_prefix;
use crate::synth::{huge_model, synth_model};
use fvm::case::*;
use fvm::gen::*;
use fvm::rng::Rng;
use fvm::view::*;

fn dump_text(t: &Tree) -> String {
    let mut out = String::new();
    let mut stack = vec![(0usize, 0usize)];
    while let Some((i, d)) = stack.pop() {
        let n = &t.nodes[i];
        out += &" ".repeat(6 * d);
        if n.is_leaf {
            out += &format!("{}:leaf={},cover={}\n", n.num, n.weight_value, n.hessian_sum);
        } else {
            out += &format!(
                "{}:[{} < {}] yes={},no={},missing={},gain={},cover={}\n",
                n.num, n.split_feature, n.split_value, n.left_child, n.right_child, n.missing_node, n.split_gain, n.hessian_sum
            );
            stack.push((n.right_child, d + 1));
            stack.push((n.left_child, d + 1));
            if n.ternary() {
                stack.push((n.missing_node, d + 1));
            }
        }
    }
    out
}

fn check(w: &mut W, r: &mut Rng, c: &Case, b: &GradientBooster, m: &Model) {
    let n = if r.chance(0.03) { 0 } else { r.range(1, 30) };
    let probe = gen_probe(r, &c.d, &c.p, n);
    let k = m.n_pred_trees();
    let got = match w.call("predict_leaf_indices", c, || b.predict_leaf_indices(&probe.m())) {
        Some(v) => v,
        None => return,
    };
    if got.len() != n * k {
        return w.fail("leaf-shape", format!("{} leaf indices for {} rows and {} prediction trees", got.len(), n, k), c);
    }
    let pred = match w.call("predict", c, || b.predict(&probe.m(), false)) {
        Some(v) => v,
        None => return,
    };
    for i in 0..n {
        let row = probe.row(i);
        let mut s = m.base_score;
        for (ti, t) in m.trees[..k].iter().enumerate() {
            let l = got[ti * n + i];
            match t.leaf(&row, &c.p) {
                Ok(x) if t.nodes[x].num == l => s += t.nodes[x].weight_value as f64,
                Ok(x) => return w.fail("leaf-index", format!("row {} ends in leaf {} of tree {} but {} is reported", i, x, ti, l), c),
                Err(e) => return w.fail("malformed-tree", e, c),
            }
            w.count("leaf indices compared", 1);
        }
        if s.to_bits() != pred[i].to_bits() {
            return w.fail("leaf-sum", format!("row {}: the reported leaves add up to {} but the prediction is {}", i, s, pred[i]), c);
        }
    }
    if b.trees.len() != m.trees.len() {
        return w.fail("tree-count", format!("{} trees in memory, {} in the dump", b.trees.len(), m.trees.len()), c);
    }
    for (ti, t) in m.trees.iter().enumerate() {
        let text = match w.call("to_string", c, || b.trees[ti].to_string()) {
            Some(v) => v,
            None => return,
        };
        let want = dump_text(t);
        if text.trim_end() != want.trim_end() {
            return w.fail("text-dump", format!("tree {} prints as\n{}but holds\n{}", ti, text.chars().take(3000).collect::<String>(), want.chars().take(3000).collect::<String>()), c);
        }
        w.count("text dumps compared", 1);
    }
    if m.splits() > 0 && n > 0 {
        w.nontrivial(m.hash() ^ k as u64);
        w.sample(|| c.brief());
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a model, trained or loaded, and a batch of probe rows; leaf indices are recomputed by routing, text dumps from the saved form; non-trivial when the model has a split; distinct by model contents and prediction iteration");
    ctx.stage("trained", 12000, 150000, 25.0, 200.0, |w, r| {
        let prof = Profile { evals: r.chance(0.2), iters: 10, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if !c.evals.is_empty() && r.chance(0.5) {
            c.p.esr = Some(r.range(1, 3));
        }
        let (b, mut m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        if !m.finite() || m.trees.iter().any(|t| t.nodes.iter().any(|n| !n.split_gain.is_finite())) {
            return w.count("overflowed models skipped", 1);
        }
        let b = pick_prefix(r, b, &mut m);
        check(w, r, &c, &b, &m);
    });
    ctx.stage("loaded", 12000, 150000, 20.0, 200.0, |w, r| {
        if let Some((c, b, mut m)) = synth_model(w, r) {
            let b = pick_prefix(r, b, &mut m);
            check(w, r, &c, &b, &m);
        }
    });
    ctx.stage("huge", 4, 24, 20.0, 100.0, |w, r| {
        if let Some((c, b, m)) = huge_model(w, r) {
            check(w, r, &c, &b, &m);
        }
    });
}
