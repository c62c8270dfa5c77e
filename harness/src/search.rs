//! Brute force candidate search at a node: which splits were certainly
//! available, and what loss reduction they certainly had.
use crate::analysis::*;
use crate::case::*;
use crate::view::*;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Cand {
    pub feature: usize,
    pub value: f64,
    /// Loss reduction over the node kept whole, before gamma.
    pub gain: f64,
    pub err: f64,
    pub missing_left: Option<bool>,
}

pub struct Thresholds {
    /// Per feature: None = every observed value is a threshold.
    pub only: Vec<Option<Vec<f64>>>,
    pub max: Vec<f64>,
}

pub fn thresholds(m: &Model, c: &Case) -> Thresholds {
    let mut only = vec![];
    let mut max = vec![];
    for j in 0..c.d.cols {
        let mut v: Vec<f64> = c.d.col(j).iter().copied().filter(|x| !c.p.is_missing(*x)).collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup();
        max.push(v.last().copied().unwrap_or(f64::NEG_INFINITY));
        if v.len() <= c.p.nbins as usize {
            only.push(None);
        } else {
            let mut u: Vec<f64> = m
                .trees
                .iter()
                .flat_map(|t| t.nodes.iter())
                .filter(|n| !n.is_leaf && n.split_feature == j)
                .map(|n| n.split_value)
                .collect();
            u.sort_by(|a, b| a.partial_cmp(b).unwrap());
            u.dedup();
            only.push(Some(u));
        }
    }
    Thresholds { only, max }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Sum {
    pub g: f64,
    pub h: f64,
    pub n: usize,
}
impl Sum {
    fn add(&mut self, g: f32, h: f32) {
        self.g += g as f64;
        self.h += h as f64;
        self.n += 1;
    }
    fn plus(&self, o: &Sum) -> Sum {
        Sum { g: self.g + o.g, h: self.h + o.h, n: self.n + o.n }
    }
}

/// Weight, its error, gain and its error for a side.
pub struct Side {
    pub w: f64,
    pub tw: f64,
    pub gain: f64,
    pub err: f64,
}

pub fn side_with(p: &Params, s: &TreeStats, x: &Sum, w: f64, tw: f64) -> Side {
    let gain = gain_w(p, x.g, x.h, w);
    let slope = 2.0 * (x.g + (x.h + p.l2 as f64) * w).abs();
    let err = gain_err(s, x.g, x.h, w) + slope * tw + (x.h + p.l2 as f64) * tw * tw;
    Side { w, tw, gain, err }
}
pub fn side(p: &Params, s: &TreeStats, x: &Sum, lo: f64, hi: f64) -> Side {
    let w = newton(p, x.g, x.h).min(hi).max(lo);
    let tw = s.wtol(p, x.g, x.h)
        + if lo.is_finite() { 1e-5 * lo.abs() } else { 0.0 }
        + if hi.is_finite() { 1e-5 * hi.abs() } else { 0.0 };
    side_with(p, s, x, w, tw)
}

/// Own loss reduction of a node (weight w, before the learning rate).
pub fn own_gain(p: &Params, a: &TreeRef, i: usize) -> Option<(f64, f64)> {
    let st = &a.s.st[i];
    let w = a.n[i].w?;
    let x = Sum { g: st.g, h: st.h, n: st.rows.len() };
    let sd = side_with(p, &a.s, &x, w, a.n[i].tol);
    if sd.err.is_finite() {
        Some((sd.gain, sd.err))
    } else {
        None
    }
}

fn monotone_ok(con: i8, l: &Side, r: &Side) -> bool {
    match con {
        1 => l.w + l.tw + r.tw < r.w,
        -1 => r.w + l.tw + r.tw < l.w,
        _ => true,
    }
}
/// The split is certainly refused.
fn monotone_bad(con: i8, l: &Side, r: &Side) -> bool {
    match con {
        1 => l.w > r.w + l.tw + r.tw,
        -1 => r.w > l.w + l.tw + r.tw,
        _ => false,
    }
}

/// The best split that was certainly available at node `i` (None if none is
/// certain). `force` mode is not modelled.
pub fn best(c: &Case, t: &Tree, a: &TreeRef, i: usize, th: &Thresholds) -> Option<Cand> {
    let p = &c.p;
    let s = &a.s;
    let rows = &s.st[i].rows;
    let (lo, hi) = (a.n[i].lo, a.n[i].hi);
    let (own, own_err) = own_gain(p, a, i)?;
    let pw = a.n[i].w?;
    let pw_tol = a.n[i].tol;
    // A side without any weight (only rows of weight zero) is not one.
    let mlw = (p.mlw as f64 * (1.0 + 1e-6) + s.tol_h).max(1e-30);
    let _ = t;
    let mut best: Option<Cand> = None;
    for f in 0..c.d.cols {
        let mut miss = Sum::default();
        let mut vals: Vec<(f64, usize)> = vec![];
        for r in rows {
            let v = c.d.get(*r, f);
            if p.is_missing(v) {
                miss.add(s.grad[*r], s.hess[*r]);
            } else {
                vals.push((v, *r));
            }
        }
        if vals.is_empty() {
            continue;
        }
        vals.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
        let mut tot = Sum::default();
        for (_, r) in &vals {
            tot.add(s.grad[*r], s.hess[*r]);
        }
        let mut cands: Vec<f64> = match &th.only[f] {
            None => {
                let mut u: Vec<f64> = vals.iter().map(|v| v.0).collect();
                u.dedup();
                if th.max[f] > *u.last().unwrap() {
                    u.push(th.max[f]);
                }
                u
            }
            Some(u) => u.clone(),
        };
        cands.dedup();
        let mut left = Sum::default();
        let mut k = 0;
        let con = p.con(f);
        for v in cands {
            while k < vals.len() && vals[k].0 < v {
                left.add(s.grad[vals[k].1], s.hess[vals[k].1]);
                k += 1;
            }
            let right = Sum { g: tot.g - left.g, h: tot.h - left.h, n: tot.n - left.n };
            if p.cmb {
                if left.n == 0 || right.n == 0 || left.h < mlw || right.h < mlw {
                    continue;
                }
                let l = side(p, s, &left, lo, hi);
                let r = side(p, s, &right, lo, hi);
                if !monotone_ok(con, &l, &r) {
                    continue;
                }
                let (mw, mt) = match p.mnt {
                    Mnt::Parent => (pw, pw_tol),
                    Mnt::AvgLeaf | Mnt::AvgNode => {
                        ((l.w * left.h + r.w * right.h) / (left.h + right.h), l.tw + r.tw + 1e-5 * (l.w.abs() + r.w.abs()))
                    }
                    Mnt::None => {
                        if miss.n == 0 {
                            // The sums of an empty side may carry a rounding
                            // residue, which decides its provisional gain.
                            if !s.exact && i != 0 {
                                continue;
                            }
                            (pw, pw_tol)
                        } else {
                            if miss.h <= 4.0 * s.tol_h {
                                continue;
                            }
                            let sd = side(p, s, &miss, lo, hi);
                            (sd.w, sd.tw)
                        }
                    }
                };
                // A missing side without rows may carry a rounding residue.
                let mm = side_with(p, s, &miss, mw, mt);
                let gain = l.gain + r.gain + mm.gain - own;
                let err = l.err + r.err + mm.err + own_err;
                upd(&mut best, s.unit, f, v, gain, err, None);
            } else {
                if !p.ams && (left.n == 0 || right.n == 0 || left.h < mlw || right.h < mlw) {
                    continue;
                }
                let eval = |l: &Sum, r: &Sum| {
                    let a = side(p, s, l, lo, hi);
                    let b = side(p, s, r, lo, hi);
                    (a, b)
                };
                if miss.n == 0 || (miss.h <= 0.0 && miss.g == 0.0) {
                    if left.n == 0 || right.n == 0 || left.h < mlw || right.h < mlw {
                        continue;
                    }
                    let (l, r) = eval(&left, &right);
                    if !monotone_ok(con, &l, &r) {
                        continue;
                    }
                    upd(&mut best, s.unit, f, v, l.gain + r.gain - own, l.err + r.err + own_err, None);
                } else {
                    let lm = left.plus(&miss);
                    let rm = right.plus(&miss);
                    let (l1, r1) = eval(&lm, &right);
                    let (l2, r2) = eval(&left, &rm);
                    let a1 = lm.h >= mlw && right.h >= mlw && monotone_ok(con, &l1, &r1);
                    let a2 = left.h >= mlw && rm.h >= mlw && monotone_ok(con, &l2, &r2);
                    let g1 = l1.gain + r1.gain - own;
                    let e1 = l1.err + r1.err + own_err;
                    let g2 = l2.gain + r2.gain - own;
                    let e2 = l2.err + r2.err + own_err;
                    if !e1.is_finite() || !e2.is_finite() {
                        continue;
                    }
                    // The direction is chosen by gain first; the other limits
                    // then apply to the chosen direction.
                    let sure1 = a1 && (a2 || g1 - e1 > g2 + e2 || monotone_bad(con, &l2, &r2));
                    let sure2 = a2 && (a1 || g2 - e2 > g1 + e1 || monotone_bad(con, &l1, &r1));
                    if sure1 && sure2 {
                        if g1 > g2 {
                            upd(&mut best, s.unit, f, v, g1, e1.max(e2), Some(true));
                        } else {
                            upd(&mut best, s.unit, f, v, g2, e1.max(e2), Some(false));
                        }
                    } else if sure1 {
                        upd(&mut best, s.unit, f, v, g1, e1, Some(true));
                    } else if sure2 {
                        upd(&mut best, s.unit, f, v, g2, e2, Some(false));
                    }
                }
            }
        }
    }
    best
}

fn upd(best: &mut Option<Cand>, unit: f64, feature: usize, value: f64, gain: f64, err: f64, missing_left: Option<bool>) {
    if !gain.is_finite() || !err.is_finite() {
        return;
    }
    let err = err + 1e-6 * unit * unit;
    if best.as_ref().map(|b| gain - err > b.gain - b.err).unwrap_or(true) {
        *best = Some(Cand { feature, value, gain, err, missing_left });
    }
}

/// Reference gain of the split that was made at node `i`.
pub fn split_gain(c: &Case, t: &Tree, a: &TreeRef, i: usize) -> Option<(f64, f64)> {
    let p = &c.p;
    let (own, own_err) = own_gain(p, a, i)?;
    let mut g = -own;
    let mut e = own_err;
    let nd = &t.nodes[i];
    if p.cmb && p.mnt == Mnt::None && !a.s.exact && i != 0 && a.s.st[nd.missing_node].rows.is_empty() {
        return None;
    }
    for k in nd.children() {
        let st = &a.s.st[k];
        let w = a.n[k].w?;
        let x = Sum { g: st.g, h: st.h, n: st.rows.len() };
        let sd = side_with(p, &a.s, &x, w, a.n[k].tol);
        g += sd.gain;
        e += sd.err;
    }
    if e.is_finite() {
        Some((g, e))
    } else {
        None
    }
}

/// Could this node be split at all by the configuration (missing leaves that
/// are terminated by rule are not)?
pub fn growable(c: &Case, t: &Tree, a: &TreeRef, i: usize) -> bool {
    let p = &c.p;
    let nr = &a.n[i];
    if nr.role == Role::Missing {
        let pf = t.nodes[nr.parent.unwrap()].split_feature;
        if !p.ams || p.terminate.contains(&pf) || a.s.st[i].rows.is_empty() || a.s.st[i].h <= 4.0 * a.s.tol_h {
            return false;
        }
    }
    t.nodes[i].depth < p.max_depth
}

pub fn used_features(t: &Tree) -> BTreeSet<usize> {
    t.nodes.iter().filter(|n| !n.is_leaf).map(|n| n.split_feature).collect()
}
