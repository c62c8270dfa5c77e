//! The monitor's own view of a model, read from the saved-model format, and an
//! independent reference for routing, gradients and node statistics.
use crate::case::*;
use forust_ml::GradientBooster;
use serde::Deserialize;

fn de_f64<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
    // null is NaN, infinite values are text
    Ok(crate::case::fv(&serde_json::Value::deserialize(d)?))
}
fn de_f32<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f32, D::Error> {
    Ok(de_f64(d)? as f32)
}

#[derive(Clone, Debug, Deserialize)]
pub struct Node {
    pub num: usize,
    #[serde(deserialize_with = "de_f32")]
    pub weight_value: f32,
    #[serde(deserialize_with = "de_f32")]
    pub hessian_sum: f32,
    pub depth: usize,
    #[serde(deserialize_with = "de_f64")]
    pub split_value: f64,
    pub split_feature: usize,
    #[serde(deserialize_with = "de_f32")]
    pub split_gain: f32,
    pub missing_node: usize,
    pub left_child: usize,
    pub right_child: usize,
    pub is_leaf: bool,
}

#[derive(Clone, Debug, Deserialize)]
pub struct Tree {
    pub nodes: Vec<Node>,
}

#[derive(Clone, Debug, Deserialize)]
pub struct Model {
    #[serde(deserialize_with = "de_f64")]
    pub base_score: f64,
    #[serde(deserialize_with = "de_f64")]
    pub missing: f64,
    pub best_iteration: Option<usize>,
    pub prediction_iteration: Option<usize>,
    pub trees: Vec<Tree>,
}

impl Node {
    pub fn ternary(&self) -> bool {
        self.missing_node != self.left_child && self.missing_node != self.right_child
    }
    pub fn children(&self) -> Vec<usize> {
        if self.ternary() {
            vec![self.missing_node, self.left_child, self.right_child]
        } else {
            vec![self.left_child, self.right_child]
        }
    }
    pub fn same(&self, o: &Node) -> bool {
        self.num == o.num
            && self.weight_value.to_bits() == o.weight_value.to_bits()
            && self.hessian_sum.to_bits() == o.hessian_sum.to_bits()
            && self.depth == o.depth
            && self.split_value.to_bits() == o.split_value.to_bits()
            && self.split_feature == o.split_feature
            && self.split_gain.to_bits() == o.split_gain.to_bits()
            && self.missing_node == o.missing_node
            && self.left_child == o.left_child
            && self.right_child == o.right_child
            && self.is_leaf == o.is_leaf
    }
}

impl Tree {
    pub fn leaves(&self) -> usize {
        self.nodes.iter().filter(|n| n.is_leaf).count()
    }
    pub fn next(&self, node: usize, v: f64, is_missing: bool) -> usize {
        let n = &self.nodes[node];
        if is_missing {
            n.missing_node
        } else if v < n.split_value {
            n.left_child
        } else {
            n.right_child
        }
    }
    /// Path of node indices from the root to the leaf.
    pub fn path(&self, row: &[f64], p: &Params) -> Result<Vec<usize>, String> {
        let mut out = vec![0];
        let mut i = 0;
        loop {
            let n = self.nodes.get(i).ok_or_else(|| format!("child index {} out of range", i))?;
            if n.is_leaf {
                return Ok(out);
            }
            let v = *row
                .get(n.split_feature)
                .ok_or_else(|| format!("split feature {} out of range", n.split_feature))?;
            i = self.next(i, v, p.is_missing(v));
            out.push(i);
            if out.len() > self.nodes.len() + 1 {
                return Err("cycle in tree".into());
            }
        }
    }
    pub fn leaf(&self, row: &[f64], p: &Params) -> Result<usize, String> {
        Ok(*self.path(row, p)?.last().unwrap())
    }
    pub fn same(&self, o: &Tree) -> bool {
        self.nodes.len() == o.nodes.len() && self.nodes.iter().zip(&o.nodes).all(|(a, b)| a.same(b))
    }
    pub fn parents(&self) -> Vec<Option<usize>> {
        let mut p = vec![None; self.nodes.len()];
        for (i, n) in self.nodes.iter().enumerate() {
            if !n.is_leaf {
                for c in n.children() {
                    if c < p.len() {
                        p[c] = Some(i);
                    }
                }
            }
        }
        p
    }
    /// Structural well-formedness: every node is reached exactly once from the
    /// root, numbers match positions, depths increase by one.
    pub fn well_formed(&self, cols: usize) -> Result<(), String> {
        if self.nodes.is_empty() {
            return Err("tree without nodes".into());
        }
        let mut seen = vec![0usize; self.nodes.len()];
        let mut stack = vec![(0usize, 0usize)];
        while let Some((i, d)) = stack.pop() {
            if i >= self.nodes.len() {
                return Err(format!("child index {} out of range", i));
            }
            seen[i] += 1;
            if seen[i] > 1 {
                return Err(format!("node {} reached twice", i));
            }
            let n = &self.nodes[i];
            if n.num != i {
                return Err(format!("node at position {} carries number {}", i, n.num));
            }
            if n.depth != d {
                return Err(format!("node {} has depth {} but sits at depth {}", i, n.depth, d));
            }
            if !n.is_leaf {
                if n.split_feature >= cols {
                    return Err(format!("node {} splits on feature {} of {}", i, n.split_feature, cols));
                }
                if n.left_child == n.right_child {
                    return Err(format!("node {} has identical children", i));
                }
                for c in n.children() {
                    stack.push((c, d + 1));
                }
            }
        }
        if let Some(i) = seen.iter().position(|s| *s == 0) {
            return Err(format!("node {} is unreachable", i));
        }
        Ok(())
    }
}

impl Model {
    pub fn of(b: &GradientBooster) -> Result<Model, String> {
        let s = b.json_dump().map_err(|e| format!("json_dump failed: {}", e))?;
        Model::parse(&s)
    }
    pub fn parse(s: &str) -> Result<Model, String> {
        serde_json::from_str(s).map_err(|e| format!("cannot read dumped model: {}", e))
    }
    pub fn n_pred_trees(&self) -> usize {
        self.prediction_iteration.unwrap_or(self.trees.len())
    }
    /// Reference prediction over the first `k` trees.
    pub fn predict_row(&self, row: &[f64], p: &Params, k: usize) -> Result<f64, String> {
        let mut s = self.base_score;
        for t in &self.trees[..k] {
            s += t.nodes[t.leaf(row, p)?].weight_value as f64;
        }
        Ok(s)
    }
    pub fn splits(&self) -> usize {
        self.trees.iter().map(|t| t.nodes.iter().filter(|n| !n.is_leaf).count()).sum()
    }
    pub fn same_trees(&self, o: &Model) -> bool {
        self.trees.len() == o.trees.len() && self.trees.iter().zip(&o.trees).all(|(a, b)| a.same(b))
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |v: u64| h = (h ^ v).wrapping_mul(0x100000001B3);
        for t in &self.trees {
            for n in &t.nodes {
                add(n.weight_value.to_bits() as u64);
                add(n.split_value.to_bits());
                add(n.split_feature as u64);
                add(n.missing_node as u64);
            }
        }
        h
    }
    pub fn finite(&self) -> bool {
        self.base_score.is_finite()
            && self
                .trees
                .iter()
                .all(|t| t.nodes.iter().all(|n| n.weight_value.is_finite() && n.hessian_sum.is_finite()))
    }
}

pub fn sigmoid(v: f64) -> f64 {
    1.0 / (1.0 + (-v).exp())
}

/// Reference gradients of the documented objectives.
pub fn grad_hess(obj: Obj, y: &[f64], yhat: &[f64], w: &[f64]) -> (Vec<f32>, Vec<f32>) {
    let mut g = Vec::with_capacity(y.len());
    let mut h = Vec::with_capacity(y.len());
    for i in 0..y.len() {
        match obj {
            Obj::Log => {
                let p = sigmoid(yhat[i]);
                g.push(((p - y[i]) * w[i]) as f32);
                h.push((p * (1.0 - p) * w[i]) as f32);
            }
            Obj::Sq => {
                g.push(((yhat[i] - y[i]) * w[i]) as f32);
                h.push(w[i] as f32);
            }
        }
    }
    (g, h)
}

#[derive(Clone, Default, Debug)]
pub struct Stat {
    pub g: f64,
    pub h: f64,
    pub ag: f64,
    pub rows: Vec<usize>,
}

/// Statistics of one tree under the training rows routed by raw value.
pub struct TreeStats {
    pub st: Vec<Stat>,
    pub grad: Vec<f32>,
    pub hess: Vec<f32>,
    /// Absolute f32 accumulation error allowed for gradient / hessian sums.
    pub tol_g: f64,
    pub tol_h: f64,
    /// All f32 sums of gradients and hessians are exact, in any order.
    pub exact: bool,
    /// Largest gradient, at most one: the unit of absolute allowances.
    pub unit: f64,
}

/// Can any sum of these values be represented exactly?
fn exact_sums(v: &[f32]) -> bool {
    let mut s = 0.0;
    for x in v {
        let y = *x as f64 * 64.0;
        if y.fract() != 0.0 {
            return false;
        }
        s += y.abs();
    }
    s < 16_000_000.0
}

/// Replays training of an unsampled model: for every tree the gradients at that
/// iteration and the statistics of every node, from routing the raw rows.
pub fn replay(m: &Model, c: &Case) -> Result<Vec<TreeStats>, String> {
    replay_with(m, c, None)
}
/// The same when tree `t` saw the gradients of row `i` times `fac[t][i]`
/// (0: the row was not sampled).
pub fn replay_with(m: &Model, c: &Case, fac: Option<&[Vec<f32>]>) -> Result<Vec<TreeStats>, String> {
    let d = &c.d;
    let mut yhat = vec![m.base_score; d.rows];
    let rows: Vec<Vec<f64>> = (0..d.rows).map(|i| d.row(i)).collect();
    let mut out = vec![];
    for (ti, t) in m.trees.iter().enumerate() {
        let (mut grad, mut hess) = grad_hess(c.p.obj, &d.y, &yhat, &d.w);
        if let Some(f) = fac {
            for i in 0..d.rows {
                grad[i] *= f[ti][i];
                hess[i] *= f[ti][i];
            }
        }
        let mut st = vec![Stat::default(); t.nodes.len()];
        for i in 0..d.rows {
            let path = t.path(&rows[i], &c.p)?;
            yhat[i] += t.nodes[*path.last().unwrap()].weight_value as f64;
            if fac.map(|f| f[ti][i] == 0.0).unwrap_or(false) {
                continue;
            }
            for n in &path {
                let s = &mut st[*n];
                s.g += grad[i] as f64;
                s.h += hess[i] as f64;
                s.ag += (grad[i] as f64).abs();
                s.rows.push(i);
            }
        }
        let nb = (c.p.nbins as usize).min(d.rows) as f64 + 2.0;
        let depth = t.nodes.iter().map(|n| n.depth).max().unwrap_or(0) as f64;
        let k = 1.2e-7 * (nb + 6.0 * depth + 10.0);
        let exact = exact_sums(&grad) && exact_sums(&hess);
        let (tol_g, tol_h) = if exact { (0.0, 0.0) } else { (k * st[0].ag + 1e-30, k * st[0].h + 1e-30) };
        let unit = grad.iter().fold(0.0f64, |m, g| m.max((*g as f64).abs()));
        // gradients that are rounding residues of the targets decide nothing
        let ymax = d.y.iter().fold(0.0f64, |m, y| m.max(y.abs()));
        let unit = unit.max(1e-9 * ymax).max(1e-12).min(1.0);
        out.push(TreeStats { st, grad, hess, tol_g, tol_h, exact, unit });
    }
    Ok(out)
}

/// Regularised Newton step before the learning rate.
pub fn newton(p: &Params, g: f64, h: f64) -> f64 {
    let l1 = p.l1 as f64;
    let t = if g > l1 {
        g - l1
    } else if g < -l1 {
        g + l1
    } else {
        0.0
    };
    let w = -t / (h + p.l2 as f64);
    let m = p.mds as f64;
    if m != 0.0 && w.abs() > m {
        m.copysign(w)
    } else {
        w
    }
}

/// Everything a model consists of, order of unordered parts removed.
pub fn canon(b: &GradientBooster) -> Result<serde_json::Value, String> {
    let s = b.json_dump().map_err(|e| format!("json_dump failed: {}", e))?;
    canon_text(&s)
}
pub fn canon_text(s: &str) -> Result<serde_json::Value, String> {
    let mut v: serde_json::Value = serde_json::from_str(s).map_err(|e| format!("dump is not JSON: {}", e))?;
    if let Some(a) = v.get_mut("terminate_missing_features").and_then(|a| a.as_array_mut()) {
        a.sort_by_key(|x| x.as_u64());
    }
    Ok(v)
}
/// First difference between two canonical dumps.
pub fn diff(a: &serde_json::Value, b: &serde_json::Value, at: String) -> Option<String> {
    use serde_json::Value::*;
    match (a, b) {
        (Object(x), Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{}.{} only on one side", at, k)),
                    Some(u) => {
                        if let Some(d) = diff(v, u, format!("{}.{}", at, k)) {
                            return Some(d);
                        }
                    }
                }
            }
            y.keys().find(|k| !x.contains_key(*k)).map(|k| format!("{}.{} only on one side", at, k))
        }
        (Array(x), Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{}: {} against {} entries", at, x.len(), y.len()));
            }
            x.iter().zip(y).enumerate().find_map(|(i, (p, q))| diff(p, q, format!("{}[{}]", at, i)))
        }
        // integral floats and integers are the same number
        (Number(x), Number(y)) => {
            if x == y || (x.as_f64().map(|v| v.to_bits()) == y.as_f64().map(|v| v.to_bits()) && x.is_f64() != y.is_f64()) {
                None
            } else {
                Some(format!("{}: {} against {}", at, x, y))
            }
        }
        _ => {
            if a == b {
                None
            } else {
                Some(format!("{}: {} against {}", at, a, b))
            }
        }
    }
}
pub fn same_bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}
