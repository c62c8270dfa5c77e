//! C10: damaged model files are refused, older files still load.
use super::*;
use crate::checks::c09::Scratch;
use fvm::case::*;
use fvm::gen::*;
use fvm::run::*;
use fvm::view::*;
use serde_json::{json, Value};

fn optional() -> Vec<(&'static str, Value)> {
    vec![
        ("l1", json!(0.0)),
        ("max_delta_step", json!(0.0)),
        ("monotone_constraints", Value::Null),
        ("top_rate", json!(0.1)),
        ("other_rate", json!(0.2)),
        ("colsample_bytree", json!(1.0)),
        ("sample_method", json!("None")),
        ("grow_policy", json!("DepthWise")),
        ("evaluation_metric", Value::Null),
        ("early_stopping_rounds", Value::Null),
        ("initialize_base_score", json!(false)),
        ("terminate_missing_features", json!([])),
        ("evaluation_history", Value::Null),
        ("best_iteration", Value::Null),
        ("prediction_iteration", Value::Null),
        ("missing_node_treatment", json!("AssignToParent")),
        ("log_iterations", json!(0)),
        ("force_children_to_bound_parent", json!(false)),
    ]
}

fn small(w: &mut W, r: &mut fvm::rng::Rng) -> Option<(Case, GradientBooster, String)> {
    let prof = Profile { evals: r.chance(0.4), max_rows: 60, big: 0.0, wide: 0.0, max_cols: 4, iters: 4, ..Default::default() };
    let mut c = gen_case(r, &prof);
    c.p.max_depth = c.p.max_depth.min(4);
    if !c.p.missing.is_nan() && !c.p.missing.is_finite() {
        for v in c.d.x.iter_mut().chain(c.evals.iter_mut().flat_map(|e| e.x.iter_mut())) {
            if *v == c.p.missing {
                *v = f64::NAN;
            }
            if v.is_infinite() {
                *v = 3.5;
            }
        }
        c.p.missing = f64::NAN;
    }
    if !c.evals.is_empty() {
        c.p.esr = Some(2);
        if c.p.metric == Some(Met::Rmsle) || (c.p.metric.is_none() && c.p.obj == Obj::Sq) {
            c.p.metric = Some(Met::Rmse);
        }
    }
    let mut b = w.must("fit", &c, || c.train())?;
    if b.trees.iter().any(|t| t.nodes.iter().any(|n| !n.weight_value.is_finite() || !n.split_gain.is_finite())) {
        return None;
    }
    if r.chance(0.5) {
        b.insert_metadata("note".into(), "kept \"as is\" \\ ".into());
    }
    let s = w.must("json_dump", &c, || b.json_dump().map_err(|e| e.to_string()))?;
    Some((c, b, s))
}

fn load(w: &mut W, c: &Case, s: &str, what: &str) -> Option<Result<GradientBooster, String>> {
    match sut(|| GradientBooster::from_json(s).map_err(|e| e.to_string())) {
        Ok(v) => Some(v),
        Err(e) => {
            let cut: String = s.chars().take(3000).collect();
            w.fail_v("panic", format!("loading {}: {}", what, e), json!({"case": c.to_json(), "text": cut}));
            None
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a dumped model with one kind of damage, or with optional settings removed; every damaged text is loaded; non-trivial when the damaged text differs from the original; distinct by damaged text");
    let scratch = Scratch::new("c10");
    let hash = |s: &[u8]| s.iter().fold(0xcbf29ce484222325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100000001B3));
    ctx.stage("truncated", 400, 6000, 10.0, 120.0, |w, r| {
        let (c, _, s) = match small(w, r) {
            Some(v) => v,
            None => return,
        };
        let step = (s.len() / 300).max(1);
        let mut at = r.below(step);
        while at < s.len() {
            let mut k = at;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            if let Some(Ok(_)) = load(w, &c, &s[..k], "a truncated model") {
                return w.fail("truncation-accepted", format!("the first {} of {} bytes load as a model", k, s.len()), &c);
            }
            if (at / step) % 40 == 7 {
                let f = scratch.path(&format!("t{}", w.idx));
                std::fs::write(&f, &s.as_bytes()[..at]).expect("scratch write");
                let v = sut(|| GradientBooster::load_booster(&f).map(|_| ()).map_err(|e| e.to_string()));
                let _ = std::fs::remove_file(&f);
                match v {
                    Ok(Err(_)) => w.count("truncated files refused", 1),
                    Ok(Ok(_)) => return w.fail("truncation-accepted", format!("a file of the first {} of {} bytes loads as a model", at, s.len()), &c),
                    Err(e) => return w.fail("panic", format!("loading a truncated file: {}", e), &c),
                }
            }
            w.count("truncations refused", 1);
            at += step;
        }
        // something after the end
        let junk: String = (0..r.range(1, 12)).map(|_| r.pick(&['x', '}', ']', '{', '0', ',', '"', '\u{0}', 'é', ':'])).collect();
        for tail in [s.clone(), "}".into(), "{}".into(), " null".into(), "\n\n0".into(), ",".into(), junk, s[..r.below(s.len().min(40))].to_string() + "]"] {
            let t = s.clone() + &tail;
            if let Some(Ok(_)) = load(w, &c, &t, "a model with something after its end") {
                return w.fail("trailing-accepted", format!("a model followed by {:?} loads", tail.chars().take(20).collect::<String>()), &c);
            }
            if w.failed() {
                return;
            }
            w.count("texts with something after the end refused", 1);
        }
        w.nontrivial(hash(s.as_bytes()));
        w.sample(|| c.brief());
    });
    ctx.stage("corrupted", 3000, 60000, 12.0, 150.0, |w, r| {
        let (c, _, s) = match small(w, r) {
            Some(v) => v,
            None => return,
        };
        for _ in 0..20 {
            let mut by = s.clone().into_bytes();
            match r.below(6) {
                0 => {
                    let i = r.below(by.len());
                    by[i] ^= 1 << r.below(8);
                }
                1 => {
                    let i = r.below(by.len());
                    by[i] = r.below(256) as u8;
                }
                2 => {
                    let i = r.below(by.len());
                    let n = r.range(1, 200).min(by.len() - i);
                    by.drain(i..i + n);
                }
                3 => {
                    let i = r.below(by.len());
                    let ins: Vec<u8> = (0..r.range(1, 20)).map(|_| r.pick(b"[]{}\",:0123456789.eE-nulltruefalse\\u ")).collect();
                    by.splice(i..i, ins);
                }
                4 => {
                    let i = r.below(by.len());
                    let j = r.below(by.len());
                    by.swap(i, j);
                }
                _ => {
                    // a block from elsewhere
                    let i = r.below(by.len());
                    let j = r.below(by.len());
                    let n = r.range(1, 400).min(by.len() - i.max(j));
                    let blk = by[j..j + n].to_vec();
                    by[i..i + n].copy_from_slice(&blk);
                }
            }
            match String::from_utf8(by.clone()) {
                Ok(t) => match load(w, &c, &t, "a corrupted model") {
                    None => return,
                    Some(Ok(_)) if serde_json::from_str::<serde::de::IgnoredAny>(&t).is_err() => {
                        let cut: String = t.chars().take(6000).collect();
                        return w.fail_v("nonjson-accepted", "a damaged text that is not JSON any more loads as a model".into(), json!({"case": c.to_json(), "text": cut}));
                    }
                    Some(Ok(_)) => w.count("corruptions still readable", 1),
                    Some(Err(_)) => w.count("corruptions refused", 1),
                },
                Err(_) => {
                    let f = scratch.path(&format!("u{}", w.idx));
                    std::fs::write(&f, &by).expect("scratch write");
                    let v = sut(|| GradientBooster::load_booster(&f).map(|_| ()).map_err(|e| e.to_string()));
                    let _ = std::fs::remove_file(&f);
                    match v {
                        Ok(Err(_)) => w.count("non-text files refused", 1),
                        Ok(Ok(_)) => return w.fail("nontext-accepted", "a file that is not text loads as a model".into(), &c),
                        Err(e) => return w.fail("panic", format!("loading a file that is not text: {}", e), &c),
                    }
                }
            }
            w.nontrivial(hash(&by));
        }
    });
    ctx.stage("structure", 1500, 30000, 10.0, 120.0, |w, r| {
        let (c, _, s) = match small(w, r) {
            Some(v) => v,
            None => return,
        };
        let v: Value = serde_json::from_str(&s).expect("dump is JSON");
        let obj = v.as_object().expect("dump is an object");
        // a field removed without which there is no model
        for k in ["trees", "base_score", "missing", "objective_type"] {
            if !obj.contains_key(k) {
                return w.fail("dump", format!("the dump has no {}", k), &c);
            }
            let mut o = obj.clone();
            o.remove(k);
            let t = Value::Object(o).to_string();
            {
                match load(w, &c, &t, "a model without a required field") {
                    None => return,
                    Some(Ok(_)) => return w.fail("incomplete-accepted", format!("a model without {} loads", k), &c),
                    Some(Err(_)) => w.count("incomplete models refused", 1),
                }
            }
        }
        // a node that lacks something
        let trees = obj["trees"].as_array().expect("trees").len();
        if trees > 0 {
            let ti = r.below(trees);
            let ni = r.below(v["trees"][ti]["nodes"].as_array().expect("nodes").len());
            for k in ["weight_value", "split_value", "split_feature", "missing_node", "left_child", "right_child", "is_leaf"] {
                let mut o = v.clone();
                if o["trees"][ti]["nodes"][ni].as_object_mut().expect("node").remove(k).is_none() {
                    return w.fail("dump", format!("a dumped node has no {}", k), &c);
                }
                match load(w, &c, &o.to_string(), "a model with an incomplete node") {
                    None => return,
                    Some(Ok(_)) => return w.fail("incomplete-accepted", format!("a model whose node {} of tree {} lacks {} loads", ni, ti, k), &c),
                    Some(Err(_)) => w.count("incomplete nodes refused", 1),
                }
            }
            let mut o = v.clone();
            o["trees"][ti].as_object_mut().expect("tree").remove("nodes");
            if let Some(Ok(_)) = load(w, &c, &o.to_string(), "a model with an incomplete tree") {
                return w.fail("incomplete-accepted", format!("a model whose tree {} lacks its nodes loads", ti), &c);
            }
        }
        // a field of the wrong type
        let k = r.pick(&obj.keys().cloned().collect::<Vec<_>>());
        let bad = r.pick(&[json!({"a": 1}), json!([[[]]]), json!("text"), json!(-1), json!(1e300), json!([1, "x"])]);
        let mut o = obj.clone();
        o.insert(k.clone(), bad.clone());
        match load(w, &c, &Value::Object(o).to_string(), "a model with a field of the wrong type") {
            None => return,
            Some(Ok(_)) => w.count("odd fields accepted", 1),
            Some(Err(_)) => w.count("odd fields refused", 1),
        }
        for t in ["", "null", "[]", "{}", "0", "\"\"", "{\"trees\": []}", "[1,2", "\u{feff}{}", "nan"] {
            match load(w, &c, t, "something that is no model") {
                None => return,
                Some(Ok(_)) => return w.fail("nonmodel-accepted", format!("{:?} loads as a model", t), &c),
                Some(Err(_)) => w.count("non-models refused", 1),
            }
        }
        // deep nesting must not exhaust the stack
        let deep = "[".repeat(r.pick(&[1000, 20000, 200000]));
        for t in [deep.clone(), s.replacen("\"trees\":[", &format!("\"trees\":[{}", deep), 1), format!("{{\"a\":{}", deep)] {
            match load(w, &c, &t, "deeply nested text") {
                None => return,
                Some(Ok(_)) => return w.fail("nonmodel-accepted", "deeply nested text loads as a model".into(), &c),
                Some(Err(_)) => w.count("nested texts refused", 1),
            }
        }
        w.nontrivial(hash(s.as_bytes()));
    });
    ctx.stage("older", 4000, 80000, 12.0, 150.0, |w, r| {
        let (c, b, s) = match small(w, r) {
            Some(v) => v,
            None => return,
        };
        let v: Value = serde_json::from_str(&s).expect("dump is JSON");
        let mut o = v.as_object().expect("dump is an object").clone();
        let all = r.chance(0.3);
        let mut gone = vec![];
        for (k, d) in optional() {
            if all || r.chance(0.4) {
                o.remove(k);
                gone.push((k, d));
            }
        }
        let t = Value::Object(o.clone()).to_string();
        let lb = match load(w, &c, &t, "an older model") {
            None => return,
            Some(Ok(b)) => b,
            Some(Err(e)) => return w.fail("older-refused", format!("a model without {:?} is refused: {}", gone.iter().map(|g| g.0).collect::<Vec<_>>(), e), &c),
        };
        let got = match canon(&lb) {
            Ok(v) => v,
            Err(e) => return w.fail("dump", e, &c),
        };
        let mut want = o;
        for (k, d) in &gone {
            want.insert(k.to_string(), d.clone());
        }
        let want = canon_text(&Value::Object(want).to_string()).expect("JSON");
        // f32 defaults may be written with another number of digits
        if let Some(d) = diff(&want, &got, "model".into()) {
            return w.fail("older-default", format!("a model without {:?}: {}", gone.iter().map(|g| g.0).collect::<Vec<_>>(), d), &c);
        }
        // predictions of the same trees
        let np = r.range(1, 20);
        let probe = gen_probe(r, &c.d, &c.p, np);
        let mut bb = b;
        bb.prediction_iteration = lb.prediction_iteration;
        match (sut(|| bb.predict(&probe.m(), false)), sut(|| lb.predict(&probe.m(), false))) {
            (Ok(x), Ok(y)) if same_bits(&x, &y) => w.count("predictions of older models compared", x.len() as u64),
            (Ok(_), Ok(_)) => return w.fail("older-predictions", "an older model predicts differently".into(), &c),
            (Err(e), _) | (_, Err(e)) => return w.fail("panic", e, &c),
        }
        w.count("older models loaded", 1);
        w.nontrivial(hash(t.as_bytes()));
    });
    ctx.stage("io", 40, 200, 5.0, 20.0, |w, r| {
        let (c, b, s) = match small(w, r) {
            Some(v) => v,
            None => return,
        };
        let dir = scratch.path("adir");
        let _ = std::fs::create_dir_all(&dir);
        for p in [scratch.path("no/such/dir/m.json"), dir.clone(), "/dev/full".to_string(), String::new(), "\0".to_string()] {
            match sut(|| b.save_booster(&p).map_err(|e| e.to_string())) {
                Ok(Err(_)) => w.count("failing saves reported", 1),
                Ok(Ok(_)) => return w.fail("save-error-lost", format!("saving to {:?} reports success", p), &c),
                Err(e) => return w.fail("panic", format!("saving to {:?}: {}", p, e), &c),
            }
        }
        for p in [scratch.path("nothing-here"), dir, "/dev/null".to_string(), String::new(), "\0".to_string()] {
            match sut(|| GradientBooster::load_booster(&p).map(|_| ()).map_err(|e| e.to_string())) {
                Ok(Err(_)) => w.count("failing loads reported", 1),
                Ok(Ok(_)) => return w.fail("load-error-lost", format!("loading {:?} reports success", p), &c),
                Err(e) => return w.fail("panic", format!("loading {:?}: {}", p, e), &c),
            }
        }
        w.nontrivial(hash(s.as_bytes()));
    });
}
