//! C20: row and column sampling follow their definition and the seed.
//!
//! Row weights are distinct powers of two (four), so the cover of a root names
//! the rows (and their scaling) that its tree was given.
use super::*;
use crate::checks::c03::check_weights_with;
use fvm::analysis::Role;
use fvm::case::*;
use fvm::explain::used_features;
use fvm::rng::Rng;
use fvm::view::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

#[derive(Default, Clone)]
struct Tally {
    n: f64,
    hit: f64,
}
impl Tally {
    fn add(&mut self, b: bool) {
        self.n += 1.0;
        if b {
            self.hit += 1.0;
        }
    }
    /// Number of standard deviations from the expected frequency.
    fn z(&self, p: f64) -> f64 {
        if self.n == 0.0 {
            return 0.0;
        }
        (self.hit - self.n * p) / (self.n * p * (1.0 - p)).sqrt().max(1e-9)
    }
}

fn data(r: &mut Rng, n: usize, cols: usize, base: f64, obj: Obj) -> Data {
    let mut x = vec![];
    for _ in 0..cols {
        let k = r.range(2, 12);
        for _ in 0..n {
            x.push(if r.chance(0.1) { f64::NAN } else { r.below(k) as f64 });
        }
    }
    let mut w: Vec<f64> = (0..n).map(|i| base.powi(i as i32)).collect();
    r.shuffle(&mut w);
    let y = (0..n)
        .map(|_| match obj {
            Obj::Sq => r.irange(-8, 8) as f64,
            Obj::Log => r.below(2) as f64,
        })
        .collect();
    Data { rows: n, cols, x, y, w }
}

/// Any 64 bits; inclusion frequencies are counted over the cases, so no seed
/// may come up more often than others.
fn any_seed(r: &mut Rng) -> u64 {
    r.u64()
}

/// A seed next to this one, or one that differs from it in a single bit.
fn other_seed(r: &mut Rng, s: u64) -> u64 {
    if r.chance(0.4) {
        s.wrapping_add(1)
    } else {
        s ^ (1u64 << r.below(64))
    }
}

fn params(r: &mut Rng) -> Params {
    Params {
        obj: Obj::Sq,
        iterations: r.range(1, 12),
        lr: r.pick(&[0.5, 1.0, 0.25]),
        l2: r.pick(&[1.0, 0.5, 2.0]),
        mlw: r.pick(&[0.5, 1.0, 4.0]),
        max_depth: r.pick(&[2, 3, 4]),
        base_score: r.pick(&[0.0, 1.0, -2.0]),
        cmb: r.chance(0.4),
        mnt: r.pick(&[Mnt::None, Mnt::Parent, Mnt::AvgNode]),
        parallel: r.chance(0.3),
        grow: r.pick(&[Grow::Depth, Grow::Loss]),
        seed: any_seed(r),
        ..Default::default()
    }
}

/// Which rows each tree was given, from the covers of the roots.
fn masks(m: &Model, d: &Data, fact: &[f64], base: f64) -> Result<Vec<Vec<f32>>, String> {
    m.trees
        .iter()
        .enumerate()
        .map(|(ti, t)| {
            let mut rest = t.nodes[0].hessian_sum as f64;
            let mut out = vec![0f32; d.rows];
            let mut idx: Vec<usize> = (0..d.rows).collect();
            idx.sort_by(|a, b| d.w[*b].partial_cmp(&d.w[*a]).unwrap());
            for i in idx {
                let digit = (rest / d.w[i]).floor();
                let f = fact.iter().find(|f| **f == digit).copied();
                match f {
                    Some(f) => {
                        out[i] = f as f32;
                        rest -= f * d.w[i];
                    }
                    None => return Err(format!("tree {}: root cover {} is no sum of sampled row weights (base {}, scalings {:?})", ti, t.nodes[0].hessian_sum, base, fact)),
                }
            }
            if rest != 0.0 {
                return Err(format!("tree {}: root cover {} leaves a remainder {}", ti, t.nodes[0].hessian_sum, rest));
            }
            Ok(out)
        })
        .collect()
}

/// Covers of all nodes from exactly the sampled rows.
fn covers(w: &mut W, c: &Case, m: &Model, fac: &[Vec<f32>]) {
    let st = match replay_with(m, c, Some(fac)) {
        Ok(s) => s,
        Err(e) => return w.fail("malformed-tree", e, c),
    };
    for (ti, (t, s)) in m.trees.iter().zip(&st).enumerate() {
        for (i, n) in t.nodes.iter().enumerate() {
            if n.hessian_sum as f64 != s.st[i].h {
                return w.fail("sampled-cover", format!("tree {} node {} has cover {} but the sampled rows that reach it weigh {}", ti, i, n.hessian_sum, s.st[i].h), c);
            }
            w.count("covers compared with the sampled rows", 1);
        }
    }
    check_weights_with(w, c, m, &[Role::Root, Role::Left, Role::Right], Some(fac));
}

pub fn run(ctx: &Ctx) {
    ctx.rule("a case is a sampled training run whose row weights make the sampled rows visible in the root covers; the rows of every tree are decoded, covers and weights recomputed from them, and inclusion frequencies tested (6 sigma); non-trivial when a proper subset was sampled; distinct by decoded samples");
    // subsample -> (per position, joint with the next row, joint with next tree)
    let tallies: Mutex<BTreeMap<String, Tally>> = Mutex::new(BTreeMap::new());
    ctx.stage("random", 3000, 40000, 20.0, 200.0, |w, r| {
        let n = r.range(4, 22);
        let mut c = Case { label: "random".into(), p: params(r), d: data(r, n, 3, 2.0, Obj::Sq), evals: vec![] };
        c.p.samp = Samp::Random;
        c.p.subsample = r.pick(&[0.2, 0.5, 0.8, 0.95, 1.0]);
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let fac = match masks(&m, &c.d, &[0.0, 1.0], 2.0) {
            Ok(f) => f,
            Err(e) => return w.fail("sample", e, &c),
        };
        let p = c.p.subsample;
        if p == 1.0 && fac.iter().any(|f| f.contains(&0.0)) {
            return w.fail("sample-all", "subsample 1 leaves rows out".into(), &c);
        }
        {
            let mut t = tallies.lock().unwrap();
            for (k, f) in fac.iter().enumerate() {
                for i in 0..n {
                    let place = if i == 0 { "first" } else if i == n - 1 { "last" } else { "inner" };
                    t.entry(format!("incl {} {}", p, place)).or_default().add(f[i] != 0.0);
                    if i + 1 < n {
                        t.entry(format!("pair {} rows", p)).or_default().add(f[i] != 0.0 && f[i + 1] != 0.0);
                    }
                    if k + 1 < fac.len() {
                        t.entry(format!("pair {} trees", p)).or_default().add(f[i] != 0.0 && fac[k + 1][i] != 0.0);
                    }
                }
            }
        }
        w.count("samples decoded", fac.len() as u64);
        covers(w, &c, &m, &fac);
        if w.failed() {
            return;
        }
        // another seed, other rows; the same seed on other data, the same rows
        let mut other = c.clone();
        other.p.seed = other_seed(r, c.p.seed);
        other.p.iterations = 12;
        let mut same = other.clone();
        same.p.seed = c.p.seed;
        same.d = data(r, n, 3, 2.0, Obj::Sq);
        same.d.w = c.d.w.clone();
        same.p.parallel = !c.p.parallel;
        same.p.max_depth = 2;
        let (om, sm) = match (fit_model(w, &other), fit_model(w, &same)) {
            (Some(a), Some(b)) => (a.1, b.1),
            _ => return,
        };
        let (of, sf) = match (masks(&om, &other.d, &[0.0, 1.0], 2.0), masks(&sm, &same.d, &[0.0, 1.0], 2.0)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(e), _) | (_, Err(e)) => return w.fail("sample", e, &c),
        };
        if fac.iter().zip(&sf).any(|(a, b)| a != b) {
            return w.fail("sample-seed", "the same seed samples other rows when the data, the depth or the parallel flag change".into(), &c);
        }
        if p <= 0.8 && p >= 0.2 && n >= 10 && of.iter().zip(&sf).all(|(a, b)| a == b) {
            return w.fail("sample-seed", "another seed samples the same rows".into(), &c);
        }
        if p <= 0.8 && p >= 0.2 && n >= 10 && of.iter().all(|a| *a == of[0]) {
            return w.fail("sample-fresh", "every tree is given the same rows".into(), &c);
        }
        w.count("seed comparisons", 1);
        if p < 1.0 {
            let h = fac.iter().flatten().fold(17u64, |h, v| (h ^ v.to_bits() as u64).wrapping_mul(0x100000001B3));
            w.nontrivial(h);
            w.sample(|| c.brief());
        }
    });
    ctx.stage("goss", 4000, 50000, 20.0, 200.0, |w, r| {
        let n = 12;
        let obj = r.pick(&[Obj::Sq, Obj::Sq, Obj::Log]);
        let mut c = Case { label: "goss".into(), p: params(r), d: data(r, n, 3, 4.0, obj), evals: vec![] };
        c.p.samp = Samp::Goss;
        c.p.obj = obj;
        let (a, b) = r.pick(&[(0.5, 0.25), (0.25, 0.25), (0.0, 0.5), (0.0, 1.0 / 3.0), (0.5, 0.0625)]);
        c.p.top_rate = a;
        c.p.other_rate = b;
        let fact = ((1.0 - a) / b).round();
        if obj == Obj::Log {
            // hessians are only multiples of the weights at probability 1/2
            c.p.base_score = 0.0;
            c.p.iterations = 1;
            c.d.w.iter_mut().for_each(|v| *v *= 4.0);
        }
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let mut dw = c.d.clone();
        if obj == Obj::Log {
            dw.w.iter_mut().for_each(|v| *v *= 0.25);
        }
        let fac = match masks(&m, &dw, &[0.0, 1.0, fact], 4.0) {
            Ok(f) => f,
            Err(e) => return w.fail("sample", e, &c),
        };
        let top_n = (a * n as f64) as usize;
        let rate = (b * n as f64).floor() / (n - top_n) as f64;
        // gradients of each iteration, from the trees before it
        let full: Vec<Vec<f32>> = fac.iter().map(|_| vec![1.0; n]).collect();
        let st = match replay_with(&m, &c, Some(&full)) {
            Ok(s) => s,
            Err(e) => return w.fail("malformed-tree", e, &c),
        };
        for (ti, f) in fac.iter().enumerate() {
            let g: Vec<f32> = st[ti].grad.iter().map(|v| v.abs()).collect();
            let top: Vec<usize> = (0..n).filter(|i| f[*i] == 1.0).collect();
            if top.len() != top_n {
                return w.fail("goss-top", format!("tree {}: {} rows at scale one, top_rate {} of {} rows are {}", ti, top.len(), a, n, top_n), &c);
            }
            let lo = top.iter().map(|i| g[*i]).fold(f32::INFINITY, f32::min);
            let hi = (0..n).filter(|i| f[*i] != 1.0).map(|i| g[i]).fold(0.0, f32::max);
            if lo < hi * (1.0 - 1e-6) {
                return w.fail("goss-top", format!("tree {}: a row with gradient {} is kept as a top row while one with {} is not", ti, lo, hi), &c);
            }
            let mut t = tallies.lock().unwrap();
            let rest: Vec<usize> = (0..n).filter(|i| f[*i] != 1.0).collect();
            for (k, i) in rest.iter().enumerate() {
                t.entry(format!("goss {:.6} {}", rate, if k == 0 { "first" } else { "others" })).or_default().add(f[*i] != 0.0);
                if k + 1 < rest.len() {
                    t.entry(format!("gosspair {:.6} rows", rate)).or_default().add(f[*i] != 0.0 && f[rest[k + 1]] != 0.0);
                }
            }
        }
        w.count("GOSS samples decoded", fac.len() as u64);
        covers(w, &c, &m, &fac);
        let h = fac.iter().flatten().fold(23u64, |h, v| (h ^ v.to_bits() as u64).wrapping_mul(0x100000001B3));
        w.nontrivial(h);
    });
    ctx.stage("goss-large", 40, 400, 10.0, 60.0, |w, r| {
        // unit weights, top rows stand out by their gradient
        let n = r.range(2000, 6000);
        let (a, b) = r.pick(&[(0.1, 0.2), (0.2, 0.1), (0.5, 0.25), (0.03, 0.4)]);
        let top_n = (a * n as f64) as usize;
        let mut idx: Vec<usize> = (0..n).collect();
        r.shuffle(&mut idx);
        let mut y = vec![-1.0; n];
        for i in &idx[..top_n] {
            y[*i] = 1024.0;
        }
        let p = Params { obj: Obj::Sq, iterations: 1, lr: 1.0, l2: 1.0, max_depth: 2, base_score: 0.0, samp: Samp::Goss, top_rate: a, other_rate: b, seed: any_seed(r), parallel: r.chance(0.5), ..Default::default() };
        let d = Data { rows: n, cols: 1, x: (0..n).map(|_| r.normal()).collect(), y, w: vec![1.0; n] };
        let c = Case { label: "goss-large".into(), p, d, evals: vec![] };
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let fact = (1.0 - a) / b;
        let root = &m.trees[0].nodes[0];
        let k = (root.hessian_sum as f64 - top_n as f64) / fact;
        if (k - k.round()).abs() > 2e-2 {
            return w.fail("goss-scale", format!("root cover {} is not {} top rows plus a multiple of {}", root.hessian_sum, top_n, fact), &c);
        }
        let q = (b * n as f64).floor() / (n - top_n) as f64;
        let t = Tally { n: (n - top_n) as f64, hit: k.round() };
        if t.z(q).abs() > 6.0 {
            return w.fail("goss-rate", format!("{} of {} other rows sampled, {} expected", k, n - top_n, q * (n - top_n) as f64), &c);
        }
        let g = -1024.0 * top_n as f64 + fact * k.round();
        let want = -g / (root.hessian_sum as f64 + 1.0);
        if (root.weight_value as f64 - want).abs() > 1e-4 * want.abs() {
            return w.fail("goss-top", format!("root weight {} but {} with all {} top rows", root.weight_value, want, top_n), &c);
        }
        w.count("large GOSS samples confirmed", 1);
        w.nontrivial(m.hash());
    });
    ctx.stage("random-large", 40, 400, 10.0, 60.0, |w, r| {
        let n = r.range(2000, 8000);
        let p = Params { obj: Obj::Sq, iterations: 6, l2: 1.0, max_depth: 3, samp: Samp::Random, subsample: r.pick(&[0.05, 0.3, 0.5, 0.8]), seed: any_seed(r), parallel: r.chance(0.5), ..Default::default() };
        let d = Data { rows: n, cols: 2, x: (0..2 * n).map(|_| r.normal()).collect(), y: (0..n).map(|_| r.normal()).collect(), w: vec![1.0; n] };
        let c = Case { label: "random-large".into(), p, d, evals: vec![] };
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        for (ti, t) in m.trees.iter().enumerate() {
            let k = t.nodes[0].hessian_sum as f64;
            let z = Tally { n: n as f64, hit: k }.z(c.p.subsample as f64);
            if k.fract() != 0.0 || z.abs() > 6.0 {
                return w.fail("sample-rate", format!("tree {} was given {} of {} rows with subsample {}", ti, k, n, c.p.subsample), &c);
            }
        }
        w.count("large random samples confirmed", m.trees.len() as u64);
        w.nontrivial(m.hash());
    });
    let cols_seen: Mutex<BTreeMap<String, Vec<Tally>>> = Mutex::new(BTreeMap::new());
    let most_cols: Mutex<BTreeMap<String, (usize, usize, usize)>> = Mutex::new(BTreeMap::new());
    ctx.stage("columns", 600, 8000, 20.0, 150.0, |w, r| {
        let cols = r.pick(&[3, 5, 8, 12]);
        let n = 150;
        let frac = r.pick(&[0.25, 0.5, 0.75, 0.99, 0.34]);
        let amount = (cols as f64 * frac).floor() as usize;
        let p = Params { obj: Obj::Sq, iterations: 12, lr: 0.3, l2: 0.1, mlw: 1.0, max_depth: 6, colsample: frac, seed: any_seed(r), parallel: r.chance(0.3), cmb: r.chance(0.3), samp: r.pick(&[Samp::None, Samp::Random]), subsample: 0.8, ..Default::default() };
        let d = Data { rows: n, cols, x: (0..n * cols).map(|_| r.below(30) as f64).collect(), y: (0..n).map(|_| r.normal()).collect(), w: vec![1.0; n] };
        let c = Case { label: "columns".into(), p, d, evals: vec![] };
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let mut sets = BTreeSet::new();
        let mut union = BTreeSet::new();
        let mut t = cols_seen.lock().unwrap();
        let e = t.entry(format!("{} {}", cols, frac)).or_insert_with(|| vec![Tally::default(); cols]);
        for (ti, tr) in m.trees.iter().enumerate() {
            let u = used_features(tr);
            if u.len() > amount {
                drop(t);
                return w.fail("columns", format!("tree {} splits on {} columns, colsample_bytree {} of {} columns are {}", ti, u.len(), frac, cols, amount), &c);
            }
            for (j, ta) in e.iter_mut().enumerate() {
                ta.add(u.contains(&j));
            }
            union.extend(u.iter().copied());
            let mut mc = most_cols.lock().unwrap();
            let x = mc.entry(format!("{} columns, colsample_bytree {}", cols, frac)).or_insert((amount, 0, 0));
            x.1 = x.1.max(u.len());
            x.2 += 1;
            sets.insert(u);
        }
        drop(t);
        w.count("trees with sampled columns", m.trees.len() as u64);
        if amount >= 1 && amount < cols && cols >= 5 {
            let mut other = c.clone();
            other.p.seed = other_seed(r, c.p.seed);
            let om = match fit_model(w, &other) {
                Some(v) => v.1,
                None => return,
            };
            if m.trees.iter().zip(&om.trees).all(|(a, b)| used_features(a) == used_features(b)) {
                return w.fail("columns-seed", format!("the seeds {} and {} sample the same columns for every tree", c.p.seed, other.p.seed), &c);
            }
            w.count("column seed comparisons", 1);
        }
        // 12 trees with fresh samples: all equal is (nearly) impossible
        if amount >= 1 && amount < cols && cols >= 5 && amount * 4 <= 3 * cols && union.len() <= amount {
            return w.fail("columns-fresh", format!("12 trees only ever use the columns {:?}", union), &c);
        }
        if amount >= 1 {
            w.nontrivial(m.hash());
        }
    });
    ctx.stage("columns-wide", 24, 300, 15.0, 120.0, |w, r| {
        let cols = r.pick(&[70, 100, 130, 200, 300]);
        let frac = r.pick(&[0.5, 0.75, 0.95]);
        let amount = (cols as f64 * frac).floor() as usize;
        let n = 3000;
        let p = Params { obj: Obj::Sq, iterations: 3, lr: 0.3, l2: 0.1, mlw: 1.0, max_depth: 20, colsample: frac, seed: any_seed(r), parallel: r.chance(0.7), cmb: r.chance(0.3), ..Default::default() };
        let d = Data { rows: n, cols, x: (0..n * cols).map(|_| r.below(12) as f64).collect(), y: (0..n).map(|_| r.normal()).collect(), w: vec![1.0; n] };
        let c = Case { label: "columns-wide".into(), p, d, evals: vec![] };
        let (_, m) = match fit_model(w, &c) {
            Some(v) => v,
            None => return,
        };
        let mut most = 0;
        let mut splits = usize::MAX;
        for (ti, tr) in m.trees.iter().enumerate() {
            let u = used_features(tr);
            if u.len() > amount {
                return w.fail("columns", format!("tree {} splits on {} columns, colsample_bytree {} of {} columns are {}", ti, u.len(), frac, cols, amount), &c);
            }
            most = most.max(u.len());
            splits = splits.min(tr.nodes.iter().filter(|n| !n.is_leaf).count());
        }
        // noise over that many splits reaches nearly every column there is
        if splits >= 6 * amount {
            if most * 10 < amount * 9 {
                return w.fail("columns-amount", format!("no tree uses more than {} columns in {} splits or more, {} are sampled", most, splits, amount), &c);
            }
            w.count("wide column samples confirmed", 1);
        }
        w.nontrivial(m.hash());
    });
    if ctx.only.is_some() {
        return;
    }
    // frequencies over the whole run
    ctx.stage("frequencies", 1, 1, 100.0, 100.0, |w, _| {
        let c = Case { label: "frequencies".into(), p: Params::default(), d: Data::default(), evals: vec![] };
        for (k, t) in tallies.lock().unwrap().iter() {
            let f: Vec<&str> = k.split(' ').collect();
            let p: f64 = f[1].parse().unwrap();
            let p = if f[0] == "goss" || f[0] == "gosspair" { p } else { p as f32 as f64 };
            let p = if f[0].contains("pair") { p * p } else { p };
            if p >= 1.0 {
                continue;
            }
            let z = t.z(p);
            if z.abs() > 6.0 {
                return w.fail("sample-rate", format!("{}: {} of {} included, {} expected ({:.1} sigma)", k, t.hit, t.n, p * t.n, z), &c);
            }
            w.count("inclusion frequencies tested", 1);
        }
        for (k, (amount, most, trees)) in most_cols.lock().unwrap().iter() {
            if *trees >= 60 && most != amount {
                return w.fail("columns-amount", format!("{}: no tree of {} uses more than {} columns, {} are sampled", k, trees, most, amount), &c);
            }
            w.count("column amounts confirmed", 1);
        }
        for (k, v) in cols_seen.lock().unwrap().iter() {
            // columns are exchangeable
            let n = v[0].n;
            let mean = v.iter().map(|t| t.hit).sum::<f64>() / (n * v.len() as f64);
            if mean <= 0.0 || mean >= 1.0 {
                continue;
            }
            for (j, t) in v.iter().enumerate() {
                // ties between splits go to the first column, so columns are
                // only nearly exchangeable
                if t.z(mean).abs() > 9.0 && (t.hit - mean * n).abs() > 0.25 * mean * n {
                    return w.fail("columns-rate", format!("{}: column {} is used by {} of {} trees, {:.1} expected", k, j, t.hit, n, mean * n), &c);
                }
            }
            w.count("column frequencies tested", v.len() as u64);
        }
    });
}
