//! Hand-made model files (as written by another version or converted from
//! another library), loaded through the public loader.
use forust_ml::GradientBooster;
use fvm::case::*;
use fvm::gen::*;
use fvm::rng::Rng;
use fvm::run::*;
use fvm::view::*;
use serde_json::{json, Value};

struct B<'a> {
    r: &'a mut Rng,
    cols: usize,
    nodes: Vec<Value>,
    consistent: bool,
    ternary: bool,
    density: f64,
}

impl<'a> B<'a> {
    fn grow(&mut self, i: usize, depth: usize, max_depth: usize) -> (f64, f64) {
        // returns (cover, cover-weighted mean weight)
        let split = depth < max_depth && self.r.chance(self.density);
        if !split {
            let w = (self.r.normal() * 0.7) as f32;
            let cover = if self.r.chance(0.05) && !self.consistent { 1.0 } else { self.r.range(1, 40) as f32 } as f64;
            self.nodes[i] = json!({"num": i, "weight_value": w, "hessian_sum": cover as f32, "depth": depth, "split_value": 0.0,
                "split_feature": 0, "split_gain": 0.0, "missing_node": 0, "left_child": 0, "right_child": 0, "is_leaf": true});
            return (cover, w as f64);
        }
        let feat = self.r.below(self.cols);
        let sv = self.r.pick(&[0.0, 1.0, -1.0, 0.5, 2.5, 1e9 + 0.5, 5e-324, -0.25, 1e300]);
        let tern = self.ternary && self.r.chance(0.8);
        let base = self.nodes.len();
        let k = if tern { 3 } else { 2 };
        for _ in 0..k {
            self.nodes.push(Value::Null);
        }
        let (mut l, mut rr, miss);
        if tern {
            miss = base;
            l = base + 1;
            rr = base + 2;
        } else {
            l = base;
            rr = base + 1;
            if self.r.chance(0.3) {
                std::mem::swap(&mut l, &mut rr);
            }
            miss = if self.r.chance(0.5) { l } else { rr };
        }
        let (cl, wl) = self.grow(l, depth + 1, max_depth);
        let (cr, wr) = self.grow(rr, depth + 1, max_depth);
        let (cm, wm) = if tern { self.grow(miss, depth + 1, max_depth) } else { (0.0, 0.0) };
        let cover = cl + cr + cm;
        let mean = (cl * wl + cr * wr + cm * wm) / cover;
        let own = if self.consistent { mean as f32 } else { (self.r.normal() * 0.5) as f32 };
        let gain = (self.r.f() * 10.0) as f32;
        self.nodes[i] = json!({"num": i, "weight_value": own, "hessian_sum": cover as f32, "depth": depth, "split_value": sv,
            "split_feature": feat, "split_gain": gain, "missing_node": miss, "left_child": l, "right_child": rr, "is_leaf": false});
        (cover, mean)
    }
}

pub fn synth_trees(r: &mut Rng, cols: usize, n: usize, max_depth: usize) -> Vec<Value> {
    (0..n)
        .map(|_| {
            let consistent = r.chance(0.5);
            let ternary = r.chance(0.5);
            let md = r.range(0, max_depth);
            let mut b = B { r, cols, nodes: vec![Value::Null], consistent, ternary, density: 0.8 };
            b.grow(0, 0, md);
            json!({ "nodes": b.nodes })
        })
        .collect()
}

/// Trees that are one long path, most of its splits on features of their own.
pub fn chain_trees(r: &mut Rng, cols: usize, n: usize) -> Vec<Value> {
    (0..n)
        .map(|_| {
            let len = r.range(6, cols);
            let mut feats: Vec<usize> = (0..cols).collect();
            for i in (1..cols).rev() {
                feats.swap(i, r.below(i + 1));
            }
            if r.chance(0.3) {
                feats[len - 1] = feats[r.below(len - 1)];
            }
            let ternary = r.chance(0.4);
            let k = if ternary { 3 } else { 2 };
            let last = len * k;
            let mut nodes = vec![Value::Null; last + 1];
            let leaf = |r: &mut Rng, i: usize, d: usize, cover: f64| {
                json!({"num": i, "weight_value": (r.normal() * 0.7) as f32, "hessian_sum": cover as f32, "depth": d, "split_value": 0.0,
                    "split_feature": 0, "split_gain": 0.0, "missing_node": 0, "left_child": 0, "right_child": 0, "is_leaf": true})
            };
            let mut cover = r.range(2, 20) as f64;
            // from the bottom up: the path's node at level d, its children behind it
            let slots: Vec<usize> = (0..len).map(|_| r.below(k)).collect();
            let node_at = |d: usize| if d == 0 { 0 } else { 1 + (d - 1) * k + slots[d - 1] };
            nodes[node_at(len)] = leaf(r, node_at(len), len, cover);
            for d in (0..len).rev() {
                let first = 1 + d * k;
                for j in 0..k {
                    if j != slots[d] {
                        let c = (cover * r.frange(0.1, 1.5)).ceil();
                        cover += c;
                        nodes[first + j] = leaf(r, first + j, d + 1, c);
                    }
                }
                let (miss, l, rr) = if ternary {
                    (first, first + 1, first + 2)
                } else {
                    (first + r.below(2), first, first + 1)
                };
                nodes[node_at(d)] = json!({"num": node_at(d), "weight_value": (r.normal() * 0.5) as f32, "hessian_sum": cover as f32, "depth": d,
                    "split_value": r.pick(&[0.0, 1.0, -1.0, 0.5]), "split_feature": feats[d], "split_gain": (r.f() * 10.0) as f32,
                    "missing_node": miss, "left_child": l, "right_child": rr, "is_leaf": false});
            }
            json!({ "nodes": nodes })
        })
        .collect()
}

pub fn chain_model(w: &mut W, r: &mut Rng) -> Option<(Case, GradientBooster, Model)> {
    let cols = r.range(7, 12);
    let n = r.range(1, 2);
    build(w, r, cols, |r| chain_trees(r, cols, n))
}

/// One tree of more nodes than fit sixteen bits.
pub fn huge_model(w: &mut W, r: &mut Rng) -> Option<(Case, GradientBooster, Model)> {
    let cols = r.range(8, 30);
    build(w, r, cols, |r| {
        let mut b = B { r, cols, nodes: vec![Value::Null], consistent: true, ternary: false, density: 1.0 };
        b.grow(0, 0, 16);
        vec![json!({ "nodes": b.nodes })]
    })
}

pub fn synth_model(w: &mut W, r: &mut Rng) -> Option<(Case, GradientBooster, Model)> {
    let cols = r.range(1, 6);
    let n = r.range(1, 6);
    build(w, r, cols, |r| synth_trees(r, cols, n, 5))
}

fn build(w: &mut W, r: &mut Rng, cols: usize, trees: impl FnOnce(&mut Rng) -> Vec<Value>) -> Option<(Case, GradientBooster, Model)> {
    let prof = Profile { sampling: false, ..Default::default() };
    let mut p = gen_params(r, &prof, cols);
    p.init_base = false;
    if !p.missing.is_nan() && !p.missing.is_finite() {
        p.missing = f64::NAN;
    }
    let rows = r.range(2, 30);
    let d = gen_data(r, &prof, rows, cols, p.obj, p.missing);
    let c = Case { label: "loaded model file".into(), p, d, evals: vec![] };
    let empty = w.must("new", &c, || c.p.build())?;
    let s = w.must("json_dump", &c, || empty.json_dump().map_err(|e| e.to_string()))?;
    let mut v: Value = match serde_json::from_str(&s) {
        Ok(v) => v,
        Err(e) => {
            w.fail("dump", format!("unparsable dump: {}", e), &c);
            return None;
        }
    };
    v["trees"] = Value::Array(trees(r));
    let text = v.to_string();
    let b = w.must("from_json", &c, || GradientBooster::from_json(&text).map_err(|e| e.to_string()))?;
    let m = match Model::parse(&text) {
        Ok(m) => m,
        Err(e) => panic!("synthetic model does not parse: {}", e),
    };
    Some((c, b, m))
}
