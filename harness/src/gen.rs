//! Workload generator: random data sets and parameter sets with deliberate
//! hostile structure (ties, constant and all-missing columns, signed zeros,
//! adjacent floats, huge and tiny magnitudes, weights, missing markers).
use crate::case::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Col {
    Cat(usize),
    Binary,
    Normal,
    Uniform,
    Constant,
    AllMissing,
    Ties,
    Adjacent,
    Huge,
    Tiny,
    SignedZero,
    RowNumber,
    Offset,
    Copy,
    Negated,
    Skewed,
}

#[derive(Clone, Debug)]
pub struct Profile {
    pub min_rows: usize,
    pub max_rows: usize,
    /// Chance of a "large" case (1000..3000 rows).
    pub big: f64,
    pub max_cols: usize,
    pub wide: f64,
    pub missing: bool,
    /// Extreme magnitudes allowed.
    pub extreme: bool,
    /// Integer arithmetic that f32 sums exactly.
    pub exact: bool,
    pub weights: bool,
    pub zero_weights: bool,
    pub constraints: bool,
    pub cmb: Option<bool>,
    pub sampling: bool,
    pub colsample: bool,
    pub regularised: bool,
    /// Max iterations.
    pub iters: usize,
    pub obj: Option<Obj>,
    pub evals: bool,
    pub limits: bool,
    pub force: bool,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            min_rows: 1,
            max_rows: 300,
            big: 0.02,
            max_cols: 6,
            wide: 0.03,
            missing: true,
            extreme: true,
            exact: false,
            weights: true,
            zero_weights: true,
            constraints: true,
            cmb: None,
            sampling: true,
            colsample: true,
            regularised: true,
            iters: 6,
            obj: None,
            evals: false,
            limits: true,
            force: true,
        }
    }
}

fn next_up(x: f64) -> f64 {
    f64::from_bits(x.to_bits() + 1)
}

pub fn gen_col(r: &mut Rng, rows: usize, kind: Col, prev: &[f64]) -> Vec<f64> {
    match kind {
        Col::Cat(k) => (0..rows).map(|_| r.below(k) as f64).collect(),
        Col::Binary => (0..rows).map(|_| r.below(2) as f64).collect(),
        Col::Normal => (0..rows).map(|_| r.normal()).collect(),
        Col::Uniform => {
            let a = r.frange(-100., 100.);
            let b = r.frange(0.01, 50.);
            (0..rows).map(|_| a + b * r.f()).collect()
        }
        Col::Constant => {
            let c = r.pick(&[0.0, 1.0, -3.5, 1e6]);
            vec![c; rows]
        }
        Col::AllMissing => vec![f64::NAN; rows],
        Col::Ties => {
            let k = r.range(1, 4);
            (0..rows)
                .map(|_| {
                    if r.chance(0.8) {
                        r.below(k) as f64 * 0.5
                    } else {
                        r.normal()
                    }
                })
                .collect()
        }
        Col::Adjacent => {
            let base = r.pick(&[1.0, 1e-3, 123456.789, 1e15]);
            let mut vals = vec![base];
            for _ in 0..r.range(1, 12) {
                let l = *vals.last().unwrap();
                vals.push(next_up(l));
            }
            (0..rows).map(|_| r.pick(&vals)).collect()
        }
        Col::Huge => (0..rows)
            .map(|_| r.pick(&[1e300, -1e300, 1e308, -1e308, 3e100, -7e200, 1.0, 0.0]) * 1.0)
            .collect(),
        Col::Tiny => (0..rows)
            .map(|_| r.pick(&[5e-324, -5e-324, 1e-310, 2.3e-308, 0.0, 1e-300, -1e-305]))
            .collect(),
        Col::SignedZero => (0..rows)
            .map(|_| r.pick(&[0.0, -0.0, 1.0, -1.0, 0.0, -0.0]))
            .collect(),
        Col::RowNumber => {
            let s = r.pick(&[1.0, -1.0]);
            (0..rows).map(|i| s * i as f64).collect()
        }
        Col::Offset => (0..rows).map(|_| 1e9 + r.below(50) as f64 * 1e-3).collect(),
        Col::Copy => {
            if prev.len() >= rows {
                let n = prev.len() / rows;
                let j = r.below(n);
                prev[j * rows..(j + 1) * rows].to_vec()
            } else {
                gen_col(r, rows, Col::Normal, prev)
            }
        }
        Col::Negated => {
            if prev.len() >= rows {
                let n = prev.len() / rows;
                let j = r.below(n);
                prev[j * rows..(j + 1) * rows].iter().map(|v| -v).collect()
            } else {
                gen_col(r, rows, Col::Normal, prev)
            }
        }
        Col::Skewed => (0..rows).map(|_| (r.normal() * 2.0).exp()).collect(),
    }
}

pub fn pick_col(r: &mut Rng, p: &Profile) -> Col {
    let u = r.f();
    if p.extreme && u < 0.10 {
        return r.pick(&[Col::Huge, Col::Tiny, Col::Adjacent, Col::SignedZero, Col::Offset]);
    }
    if u < 0.16 {
        return r.pick(&[Col::Constant, Col::AllMissing, Col::Copy, Col::Negated, Col::RowNumber]);
    }
    if p.exact {
        let k = r.range(2, 12);
        return r.pick(&[Col::Cat(k), Col::Cat(3), Col::Binary, Col::Ties, Col::Normal, Col::Uniform]);
    }
    let k = r.range(2, 20);
    r.pick(&[
        Col::Cat(k),
        Col::Cat(k),
        Col::Binary,
        Col::Normal,
        Col::Normal,
        Col::Uniform,
        Col::Ties,
        Col::Skewed,
    ])
}

/// The finite missing markers never collide by accident with continuous data;
/// they do collide with categorical data (that is the point of 0 and 1).
pub fn pick_missing(r: &mut Rng) -> f64 {
    let u = r.f();
    if u < 0.6 {
        f64::NAN
    } else if u < 0.8 {
        -999.0
    } else if u < 0.87 {
        0.0
    } else if u < 0.94 {
        1.0
    } else {
        r.pick(&[-0.5, 1e308, f64::INFINITY, f64::NEG_INFINITY, 1e9, -0.0, 2.0, -1.0, f64::MIN, 5e-324])
    }
}

pub fn gen_x(r: &mut Rng, p: &Profile, rows: usize, cols: usize, missing: f64) -> Vec<f64> {
    let mut x: Vec<f64> = Vec::with_capacity(rows * cols);
    for _ in 0..cols {
        let kind = pick_col(r, p);
        let kind = if !p.missing && kind == Col::AllMissing { Col::Constant } else { kind };
        let mut c = gen_col(r, rows, kind, &x);
        let rate = if !p.missing {
            0.0
        } else {
            r.pick(&[0.0, 0.0, 0.03, 0.2, 0.2, 0.6, 0.95])
        };
        for v in c.iter_mut() {
            // Training features are finite (the missing marker may not be).
            if v.is_infinite() || *v == f64::MAX {
                *v = 4096.5;
            }
            if v.is_nan() || r.chance(rate) {
                *v = missing;
            }
            // No missing marker by accident when missing values are not wanted.
            if !p.missing && (*v == missing || v.is_nan()) {
                *v = 7.25;
            }
        }
        x.extend(c);
    }
    x
}

pub fn clean(v: f64) -> f64 {
    if v.is_finite() {
        v.clamp(-1e3, 1e3)
    } else {
        0.0
    }
}

pub fn gen_y(r: &mut Rng, p: &Profile, obj: Obj, x: &[f64], rows: usize, cols: usize, missing: f64) -> Vec<f64> {
    let coef: Vec<f64> = (0..cols).map(|_| if r.chance(0.6) { r.normal() } else { 0.0 }).collect();
    let cross = if cols >= 2 && r.chance(0.4) { Some((r.below(cols), r.below(cols))) } else { None };
    let miss_effect = r.normal();
    // standardise columns roughly
    let mut mu = vec![0.0; cols];
    let mut sd = vec![1.0; cols];
    for j in 0..cols {
        let c: Vec<f64> = x[j * rows..(j + 1) * rows].iter().map(|v| clean(*v)).collect();
        let m = c.iter().sum::<f64>() / rows.max(1) as f64;
        let s = (c.iter().map(|v| (v - m) * (v - m)).sum::<f64>() / rows.max(1) as f64).sqrt();
        mu[j] = m;
        sd[j] = if s > 1e-9 { s } else { 1.0 };
    }
    let noise = r.pick(&[0.0, 0.3, 1.0, 5.0]);
    let mode = r.f();
    let scale = if p.extreme && r.chance(0.1) { r.pick(&[1e6, 1e-6, 1e-3, 1e-4, 1e3]) } else { 1.0 };
    (0..rows)
        .map(|i| {
            let mut s = 0.0;
            for j in 0..cols {
                let v = x[j * rows + i];
                let z = if v == missing || v.is_nan() { miss_effect } else { (clean(v) - mu[j]) / sd[j] };
                s += coef[j] * z;
            }
            if let Some((a, b)) = cross {
                let za = (clean(x[a * rows + i]) - mu[a]) / sd[a];
                let zb = (clean(x[b * rows + i]) - mu[b]) / sd[b];
                if (za > 0.0) != (zb > 0.0) {
                    s += 2.0;
                }
            }
            s += noise * r.normal();
            match obj {
                Obj::Log => {
                    if mode < 0.06 {
                        // soft labels
                        1.0 / (1.0 + (-s).exp())
                    } else if mode < 0.12 {
                        if i == 0 { 1.0 } else { 0.0 }
                    } else if s > 0.0 {
                        1.0
                    } else {
                        0.0
                    }
                }
                Obj::Sq => {
                    if p.exact {
                        s.clamp(-30., 30.).round()
                    } else if mode < 0.05 {
                        3.0
                    } else if mode < 0.15 {
                        s.round()
                    } else if mode < 0.17 {
                        // every split takes off the largest few
                        1.6f64.powi((i % 40) as i32)
                    } else if mode < 0.19 {
                        1e5 + s
                    } else {
                        s * scale
                    }
                }
            }
        })
        .collect()
}

pub fn gen_w(r: &mut Rng, p: &Profile, rows: usize) -> Vec<f64> {
    if !p.weights || r.chance(0.4) {
        return vec![1.0; rows];
    }
    let kind = r.below(4);
    let unit = if r.chance(0.15) { r.pick(&[1e-3, 1e3]) } else { 1.0 };
    let zeros = p.zero_weights && r.chance(0.3);
    let mut w: Vec<f64> = (0..rows)
        .map(|_| {
            let v = if p.exact {
                match kind {
                    0 => r.range(1, 4) as f64,
                    1 => r.pick(&[0.5, 1.0, 2.0, 4.0]),
                    _ => r.range(1, 2) as f64,
                }
            } else {
                match kind {
                    0 => r.range(1, 4) as f64,
                    1 => r.frange(0.1, 3.0),
                    2 => (r.normal()).exp() * unit,
                    _ => r.pick(&[0.01, 1.0, 10.0]),
                }
            };
            if zeros && r.chance(0.2) {
                0.0
            } else {
                v
            }
        })
        .collect();
    if rows > 0 && w.iter().all(|v| *v == 0.0) {
        w[0] = 1.0;
    }
    w
}

pub fn gen_params(r: &mut Rng, p: &Profile, cols: usize) -> Params {
    let obj = p.obj.unwrap_or(if p.exact { Obj::Sq } else { r.pick(&[Obj::Log, Obj::Sq]) });
    let mut q = Params { obj, ..Default::default() };
    q.iterations = if r.chance(0.03) { 0 } else { r.range(1, p.iters.max(1)) };
    q.lr = if p.exact { r.pick(&[1.0, 0.5, 0.25]) } else { r.pick(&[0.3, 0.1, 1.0, 0.01, 0.7, 0.5]) };
    q.max_depth = if p.limits { r.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 30]) } else { r.pick(&[2, 3, 4, 5, 6]) };
    if q.max_depth == 0 && !r.chance(0.3) {
        q.max_depth = 3;
    }
    if p.limits && r.chance(0.06) {
        q.max_depth = r.pick(&[7, 9, 10, 12, 16, 33, 64, 1000]);
    }
    q.max_leaves = if p.limits && r.chance(0.4) {
        r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 16, 31])
    } else {
        usize::MAX
    };
    if p.limits && r.chance(0.08) {
        q.max_leaves = if r.chance(0.7) { r.range(6, 40) } else { r.range(41, 400) };
    }
    if p.regularised {
        if r.chance(0.2) {
            q.l1 = r.pick(&[0.1, 0.5, 1.0, 5.0]);
        }
        q.l2 = r.pick(&[1.0, 1.0, 0.0, 0.1, 3.0, 10.0]);
        if r.chance(0.25) {
            q.gamma = r.pick(&[0.01, 0.5, 1.0, 5.0]);
        }
        if r.chance(0.2) {
            q.mds = r.pick(&[0.05, 0.3, 1.0]);
        }
    }
    q.mlw = r.pick(&[1.0, 1.0, 1.0, 0.1, 0.01, 2.0, 5.0, 20.0]);
    if r.chance(0.05) {
        q.mlw = 0.0;
    }
    // values off the usual grid
    if !p.exact && r.chance(0.1) {
        q.lr = r.frange(0.02, 1.0) as f32;
    }
    if p.regularised && r.chance(0.12) {
        if q.l1 > 0.0 {
            q.l1 = r.frange(0.01, 6.0) as f32;
        }
        if q.l2 > 0.0 {
            q.l2 = (r.normal() * 1.5).exp() as f32;
        }
        if q.gamma > 0.0 {
            q.gamma = (r.normal() * 2.0).exp() as f32;
        }
        if q.mds > 0.0 {
            q.mds = (r.normal() - 1.0).exp() as f32;
        }
        if q.mlw > 0.0 {
            q.mlw = r.frange(0.05, 12.0) as f32;
        }
    }
    q.base_score = r.pick(&[0.5, 0.0, -1.0, 2.0]);
    q.init_base = r.chance(0.4);
    q.nbins = r.pick(&[256, 256, 2, 3, 5, 10, 32, 64, 1]);
    if r.chance(0.04) {
        q.nbins = r.pick(&[255, 257, 300, 1000, 5000]);
    }
    q.parallel = r.chance(0.3);
    q.ams = r.chance(0.6);
    if p.constraints && r.chance(0.4) {
        let mut m = BTreeMap::new();
        for j in 0..cols {
            if r.chance(0.6) {
                m.insert(j, r.pick(&[-1i8, 1, 1, 0]));
            }
        }
        q.mono = Some(m);
    }
    q.cmb = p.cmb.unwrap_or_else(|| r.chance(0.5));
    q.mnt = r.pick(&[Mnt::None, Mnt::Parent, Mnt::AvgLeaf, Mnt::AvgNode]);
    if q.cmb && r.chance(0.4) {
        q.terminate = (0..cols).filter(|_| r.chance(0.5)).collect::<BTreeSet<_>>();
    }
    q.grow = r.pick(&[Grow::Depth, Grow::Loss]);
    q.force = p.force && r.chance(0.25);
    if p.sampling && r.chance(0.35) {
        q.samp = r.pick(&[Samp::Random, Samp::Goss]);
        q.subsample = r.pick(&[0.3, 0.5, 0.8, 0.95, 1.0]);
        let (a, b) = r.pick(&[(0.1, 0.2), (0.2, 0.1), (0.5, 0.25), (0.3, 0.3), (0.0, 0.5)]);
        q.top_rate = a;
        q.other_rate = b;
        if r.chance(0.2) {
            q.subsample = r.frange(0.1, 0.99) as f32;
            q.top_rate = r.frange(0.02, 0.6);
            q.other_rate = r.frange(0.05, 1.0 - q.top_rate);
        }
    }
    if p.colsample && r.chance(0.25) {
        q.colsample = if r.chance(0.3) { r.frange(0.05, 1.0) } else { r.pick(&[0.3, 0.5, 0.75, 0.99]) };
    }
    q.seed = if r.chance(0.1) { r.u64() } else { r.u64() % 1000 };
    q.metric = r.pick(&[None, Some(Met::Auc), Some(Met::Log), Some(Met::Rmse), Some(Met::Rmsle)]);
    q.missing = if p.missing { pick_missing(r) } else { f64::NAN };
    q
}

pub fn gen_data(r: &mut Rng, p: &Profile, rows: usize, cols: usize, obj: Obj, missing: f64) -> Data {
    let x = gen_x(r, p, rows, cols, missing);
    let y = gen_y(r, p, obj, &x, rows, cols, missing);
    let w = gen_w(r, p, rows);
    Data { rows, cols, x, y, w }
}

pub fn gen_shape(r: &mut Rng, p: &Profile) -> (usize, usize) {
    if r.chance(p.big * 0.03) {
        return (r.range(5000, 20000), r.range(1, 3));
    }
    let rows = if r.chance(p.big) {
        r.range(1000, 3000)
    } else if r.chance(0.15) {
        r.range(p.min_rows, p.min_rows.max(12))
    } else {
        r.range(p.min_rows, p.max_rows)
    };
    if r.chance(p.wide * 0.1) {
        // more columns than a byte can count
        return (rows.min(60), r.range(257, 330));
    }
    let cols = if r.chance(p.wide) { r.range(17, 70) } else { r.range(1, p.max_cols) };
    (rows, cols)
}

/// A second data set over the same columns: mostly values near the training
/// values, some missing, some far outside.
pub fn gen_probe(r: &mut Rng, d: &Data, p: &Params, rows: usize) -> Data {
    let mut x = Vec::with_capacity(rows * d.cols);
    for j in 0..d.cols {
        for _ in 0..rows {
            let u = r.f();
            let base = if d.rows > 0 { d.get(r.below(d.rows), j) } else { 0.0 };
            let v = if u < 0.6 {
                base
            } else if u < 0.7 {
                p.missing
            } else if u < 0.78 && base.is_finite() {
                next_up(base.abs()).copysign(base)
            } else if u < 0.86 && base.is_finite() {
                base * 0.5 + 0.1
            } else {
                r.pick(&[0.0, -0.0, 1e300, -1e300, f64::MAX, f64::MIN, 0.5, -7.0, 5e-324, f64::INFINITY, f64::NEG_INFINITY])
            };
            x.push(if v.is_nan() { p.missing } else { v });
        }
    }
    let y = (0..rows)
        .map(|_| if d.y.is_empty() { 0.0 } else { d.y[r.below(d.y.len())] })
        .collect();
    Data { rows, cols: d.cols, x, y, w: gen_w(r, &Profile::default(), rows) }
}

pub fn gen_case(r: &mut Rng, p: &Profile) -> Case {
    let (rows, cols) = gen_shape(r, p);
    let mut q = gen_params(r, p, cols);
    if p.iters >= 4 && rows * cols < 600 && r.chance(0.02) {
        q.iterations = r.range(20, 120);
    } else if p.iters >= 4 && rows * cols < 150 && r.chance(0.004) {
        // more trees than a byte can count
        q.iterations = r.range(257, 400);
    }
    let d = gen_data(r, p, rows, cols, q.obj, q.missing);
    let evals = if p.evals {
        let k = if r.chance(0.05) { r.range(4, 6) } else { r.range(1, 3) };
        (0..k)
            .map(|_| {
                let n = if r.chance(0.01) { r.range(300, 3000) } else { r.range(1, 60) };
                gen_probe(r, &d, &q, n)
            })
            .collect()
    } else {
        vec![]
    };
    let mut c = Case {
        label: format!("{:?}{}{}", q.obj, if q.cmb { "+ternary" } else { "" }, if p.exact { "+exact" } else { "" }),
        p: q,
        d,
        evals,
    };
    c.sanitise();
    c
}

impl Case {
    /// Remove combinations the library documents as invalid (an infinite base
    /// score from a constant logistic target, division by zero totals).
    pub fn sanitise(&mut self) {
        if self.p.init_base && self.p.obj == Obj::Log {
            let t: f64 = self.d.y.iter().zip(&self.d.w).map(|(y, w)| y * w).sum();
            let n: f64 = self.d.w.iter().sum();
            if t <= 0.0 || t >= n {
                self.p.init_base = false;
            }
        }
        // GOSS and row sampling can pick no rows at all: a root with zero
        // hessian needs l2 > 0.
        if self.p.samp != Samp::None && self.p.l2 == 0.0 {
            self.p.l2 = 1.0;
        }
        // An unregularised Newton step can overflow; the bounding mode asserts
        // on its (then infinite) weights.
        if self.p.force && self.p.l2 == 0.0 {
            self.p.l2 = 0.5;
        }
    }
    /// Hash of the shape of a case, for counting distinct non-trivial ones.
    pub fn fingerprint(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut add = |v: u64| h = (h ^ v).wrapping_mul(0x100000001B3);
        add(self.d.rows as u64);
        add(self.d.cols as u64);
        for v in self.d.x.iter().take(64) {
            add(v.to_bits());
        }
        for v in self.d.y.iter().take(64) {
            add(v.to_bits());
        }
        for b in self.p.to_json().to_string().bytes() {
            add(b as u64);
        }
        h
    }
}
