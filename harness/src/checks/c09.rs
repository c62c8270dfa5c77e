//! C09: saving and loading preserves the model.
use super::*;
use crate::synth::synth_model;
use forust_ml::gradientbooster::ContributionsMethod;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::view::*;

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let p = std::env::temp_dir().join(format!("fvm-{}-{}", tag, std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
    pub fn path(&self, name: &str) -> String {
        self.0.join(name).to_string_lossy().into_owned()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn text(r: &mut fvm::rng::Rng) -> String {
    let n = r.range(0, 30);
    (0..n)
        .map(|_| r.pick(&['a', 'Z', '"', '\\', '\n', '\t', '\0', 'é', '漢', '𝄞', '{', '}', ':', ',', '\u{7f}', '\u{2028}', '/', '\'', ' ', '\r']))
        .collect()
}

/// Compares two models in everything observable.
fn compare(w: &mut W, r: &mut fvm::rng::Rng, c: &Case, a: &GradientBooster, b: &GradientBooster, keys: &[(String, String)], how: &str) -> bool {
    let (va, vb) = match (canon(a), canon(b)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => {
            w.fail("dump", e, c);
            return false;
        }
    };
    if let Some(d) = diff(&va, &vb, "model".into()) {
        w.fail("content", format!("after {}: {}", how, d), c);
        return false;
    }
    let bits = |x: f64, y: f64| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan());
    if !bits(a.base_score, b.base_score) || !bits(a.missing, b.missing) {
        w.fail("content", format!("after {}: base_score {} became {}, missing {} became {}", how, a.base_score, b.base_score, a.missing, b.missing), c);
        return false;
    }
    match (&a.evaluation_history, &b.evaluation_history) {
        (None, None) => {}
        (Some(x), Some(y)) if x.rows == y.rows && x.cols == y.cols && same_bits(&x.data, &y.data) => w.count("evaluation histories compared", 1),
        _ => {
            w.fail("history", format!("after {}: evaluation history changed", how), c);
            return false;
        }
    }
    for (k, v) in keys {
        if b.get_metadata(k).as_ref() != Some(v) {
            w.fail("metadata", format!("after {}: metadata {:?} = {:?} reads back as {:?}", how, k, v, b.get_metadata(k)), c);
            return false;
        }
        w.count("metadata entries compared", 1);
    }
    let np = r.range(1, 40);
    let probe = gen_probe(r, &c.d, &c.p, np);
    let f = |m: &GradientBooster| {
        sut(|| {
            (
                m.predict(&probe.m(), false),
                m.predict_contributions(&probe.m(), ContributionsMethod::Average, false),
                m.predict_contributions(&probe.m(), ContributionsMethod::Shapley, false),
                m.predict_leaf_indices(&probe.m()),
            )
        })
    };
    match (f(a), f(b)) {
        (Ok(x), Ok(y)) => {
            if !same_bits(&x.0, &y.0) || !same_bits(&x.1, &y.1) || !same_bits(&x.2, &y.2) || x.3 != y.3 {
                w.fail("behaviour", format!("after {}: predictions or explanations changed", how), c);
                return false;
            }
            w.count("predictions compared", x.0.len() as u64);
        }
        (Err(e), _) | (_, Err(e)) => {
            w.fail("panic", format!("using the model after {}: {}", how, e), c);
            return false;
        }
    }
    true
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a model (trained, unfitted or hand-made) with random parameters and metadata, dumped, saved and loaded in several ways; non-trivial when it has a split, metadata or history; distinct by model contents");
    let scratch = Scratch::new("c09");
    ctx.stage("roundtrip", 12000, 200000, 35.0, 400.0, |w, r| {
        let prof = Profile { evals: r.chance(0.35), big: 0.005, ..Default::default() };
        let mut c = gen_case(r, &prof);
        if !c.evals.is_empty() && r.chance(0.6) {
            c.p.esr = Some(r.range(1, 3));
        }
        if r.chance(0.05) {
            // the optimum of a constant target is infinite
            c.p.init_base = true;
            c.p.obj = Obj::Log;
            let y = r.pick(&[0.0, 1.0]);
            for v in c.d.y.iter_mut() {
                *v = y;
            }
            c.p.force = false;
        }
        if r.chance(0.3) {
            c.p.log_iterations = r.pick(&[1, 2, 1000, usize::MAX]);
        }
        if r.chance(0.2) {
            // settings that are only stored, as no sampling asks for them
            c.p.top_rate = r.pick(&[0.7, 0.0, 1.0 / 3.0, 1.0]);
            c.p.other_rate = r.pick(&[0.3, 1.0 / 7.0]);
            c.p.subsample = r.pick(&[0.1, 0.7]);
            c.p.samp = Samp::None;
        }
        if r.chance(0.1) {
            c.p.seed = u64::MAX - r.below(3) as u64;
        }
        if r.chance(0.1) {
            c.p.base_score = r.pick(&[1e-300, -0.0, 0.1 + 0.2, 1e17, f64::MIN_POSITIVE, 0.3333333333333333]);
            c.p.init_base = false;
        }
        if !c.evals.is_empty() && r.chance(0.2) {
            // an undefined metric in the history
            for e in c.evals.iter_mut() {
                let y = e.y[0];
                for v in e.y.iter_mut() {
                    *v = y;
                }
            }
            c.p.metric = Some(r.pick(&[Met::Auc, Met::Rmsle]));
        }
        let mut b = match w.must("new", &c, || c.p.build()) {
            Some(b) => b,
            None => return,
        };
        let fitted = r.chance(0.9);
        if fitted && w.must("fit", &c, || c.fit_with(&mut b)).is_none() {
            return;
        }
        if b.trees.iter().any(|t| t.nodes.iter().any(|n| !n.weight_value.is_finite() || !n.hessian_sum.is_finite() || !n.split_gain.is_finite())) {
            return w.count("overflowed models skipped", 1);
        }
        let keys: Vec<(String, String)> = {
            let mut seen = std::collections::BTreeMap::new();
            for _ in 0..r.below(4) {
                seen.insert(text(r), text(r));
            }
            seen.into_iter().collect()
        };
        for (k, v) in &keys {
            b.insert_metadata(k.clone(), v.clone());
        }
        if fitted && r.chance(0.3) {
            b = b.set_prediction_iteration(r.pick(&[None, Some(0), Some(1)]).filter(|k| *k <= c.p.iterations));
            if b.prediction_iteration.map(|k| k > b.trees.len()).unwrap_or(false) {
                b.prediction_iteration = None;
            }
        }
        let s1 = match w.must("json_dump", &c, || b.json_dump().map_err(|e| e.to_string())) {
            Some(s) => s,
            None => return,
        };
        let mut b1 = match w.must("from_json", &c, || GradientBooster::from_json(&s1).map_err(|e| e.to_string())) {
            Some(b) => b,
            None => return,
        };
        if !compare(w, r, &c, &b, &b1, &keys, "dump and load") {
            return;
        }
        // through a file, over whatever was there before
        let path = scratch.path(&format!("m{}.json", w.idx % 64 + 64 * (w.idx % 7)));
        let prev = r.below(3);
        let file = format!("{}.{}", path, w.idx);
        if prev == 1 {
            std::fs::write(&file, "x".repeat(s1.len() * 2 + 10)).expect("scratch write");
        } else if prev == 2 {
            std::fs::write(&file, "{}").expect("scratch write");
        }
        if w.must("save_booster", &c, || b.save_booster(&file).map_err(|e| e.to_string())).is_none() {
            return;
        }
        let b2 = w.must("load_booster", &c, || GradientBooster::load_booster(&file).map_err(|e| e.to_string()));
        let _ = std::fs::remove_file(&file);
        let b2 = match b2 {
            Some(b) => b,
            None => return,
        };
        if !compare(w, r, &c, &b, &b2, &keys, if prev == 1 { "saving over a longer file and loading" } else { "save and load" }) {
            return;
        }
        // and once more from the copy
        if let Some(s2) = w.must("json_dump", &c, || b1.json_dump().map_err(|e| e.to_string())) {
            match w.must("from_json", &c, || GradientBooster::from_json(&s2).map_err(|e| e.to_string())) {
                Some(b3) => {
                    if !compare(w, r, &c, &b, &b3, &keys, "a second round") {
                        return;
                    }
                }
                None => return,
            }
        }
        // refitting original and copy
        if r.chance(0.5) {
            let before = b.base_score;
            let x = w.must("refit", &c, || c.fit_with(&mut b));
            let y = w.must("refit of the loaded model", &c, || c.fit_with(&mut b1));
            if x.is_none() || y.is_none() {
                return;
            }
            let _ = before;
            if !compare(w, r, &c, &b, &b1, &keys, "refitting the loaded model") {
                return;
            }
            w.count("refits of loaded models compared", 1);
        }
        w.nontrivial(c.fingerprint());
        w.sample(|| c.brief());
    });
    ctx.stage("handmade", 3000, 40000, 6.0, 80.0, |w, r| {
        let (c, b, m) = match synth_model(w, r) {
            Some(v) => v,
            None => return,
        };
        let s = match w.must("json_dump", &c, || b.json_dump().map_err(|e| e.to_string())) {
            Some(s) => s,
            None => return,
        };
        let m2 = match Model::parse(&s) {
            Ok(m) => m,
            Err(e) => return w.fail("dump", e, &c),
        };
        if !m.same_trees(&m2) {
            return w.fail("content", "trees of a loaded file are dumped differently".into(), &c);
        }
        w.nontrivial(m.hash());
    });
}
