//! Reference definitions of contributions, partial dependence and importance,
//! written from the documented meaning of each method.
use crate::case::Params;
use crate::view::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cm {
    Weight,
    Average,
    Branch,
    Midpoint,
    Mode,
    Prob,
    Shapley,
}
pub const ALL_CM: [Cm; 7] = [Cm::Weight, Cm::Average, Cm::Branch, Cm::Midpoint, Cm::Mode, Cm::Prob, Cm::Shapley];

pub fn cm_of(m: Cm) -> forust_ml::gradientbooster::ContributionsMethod {
    use forust_ml::gradientbooster::ContributionsMethod as C;
    match m {
        Cm::Weight => C::Weight,
        Cm::Average => C::Average,
        Cm::Branch => C::BranchDifference,
        Cm::Midpoint => C::MidpointDifference,
        Cm::Mode => C::ModeDifference,
        Cm::Prob => C::ProbabilityChange,
        Cm::Shapley => C::Shapley,
    }
}

/// Are the covers of the children of every split those of the parent (so that
/// "in proportion to the cover" is unambiguous)?
pub fn covers_consistent(t: &Tree, rel: f64) -> bool {
    t.nodes.iter().all(|n| {
        if n.is_leaf {
            return true;
        }
        let s: f64 = n.children().iter().map(|c| t.nodes[*c].hessian_sum as f64).sum();
        let h = n.hessian_sum as f64;
        h > 0.0 && (s - h).abs() <= rel * h && n.children().iter().all(|c| t.nodes[*c].hessian_sum >= 0.0)
    })
}

/// Cover-weighted mean of the leaves below every node.
pub fn averages(t: &Tree) -> Vec<f64> {
    fn go(t: &Tree, i: usize, out: &mut Vec<f64>) -> f64 {
        let n = &t.nodes[i];
        let v = if n.is_leaf {
            n.weight_value as f64
        } else {
            let (mut a, mut h) = (0.0, 0.0);
            for c in n.children() {
                let m = go(t, c, out);
                a += m * t.nodes[c].hessian_sum as f64;
                h += t.nodes[c].hessian_sum as f64;
            }
            a / h
        };
        out[i] = v;
        v
    }
    let mut out = vec![0.0; t.nodes.len()];
    go(t, 0, &mut out);
    out
}

/// Expectation of a tree when the features in `known` follow the row and every
/// other split is taken in proportion to the cover of its branches.
pub fn expect(t: &Tree, row: &[f64], p: &Params, known: &dyn Fn(usize) -> bool, i: usize) -> f64 {
    let n = &t.nodes[i];
    if n.is_leaf {
        return n.weight_value as f64;
    }
    if known(n.split_feature) {
        let v = row[n.split_feature];
        return expect(t, row, p, known, t.next(i, v, p.is_missing(v)));
    }
    let (mut a, mut h) = (0.0, 0.0);
    for c in n.children() {
        let hc = t.nodes[c].hessian_sum as f64;
        if hc != 0.0 {
            a += hc * expect(t, row, p, known, c);
        }
        h += hc;
    }
    a / h
}

pub fn used_features(t: &Tree) -> Vec<usize> {
    let mut v: Vec<usize> = t.nodes.iter().filter(|n| !n.is_leaf).map(|n| n.split_feature).collect();
    v.sort();
    v.dedup();
    v
}

/// Shapley values by enumerating all coalitions of the features of the tree.
pub fn shapley(t: &Tree, row: &[f64], p: &Params) -> Vec<(usize, f64)> {
    let u = used_features(t);
    let k = u.len();
    let mut v = vec![0.0; 1 << k];
    for (s, o) in v.iter_mut().enumerate() {
        *o = expect(t, row, p, &|f| u.iter().position(|x| *x == f).map(|j| s >> j & 1 == 1).unwrap_or(false), 0);
    }
    // |S|! (k-|S|-1)! / k!
    let mut fact = vec![1.0f64; k + 1];
    for i in 1..=k {
        fact[i] = fact[i - 1] * i as f64;
    }
    u.iter()
        .enumerate()
        .map(|(j, f)| {
            let mut x = 0.0;
            for s in 0..(1usize << k) {
                if s >> j & 1 == 0 {
                    let n = s.count_ones() as usize;
                    x += fact[n] * fact[k - n - 1] / fact[k] * (v[s | 1 << j] - v[s]);
                }
            }
            (*f, x)
        })
        .collect()
}

/// Contributions of one row over the first `k` trees; the bias comes last.
pub fn contributions(m: &Model, p: &Params, row: &[f64], method: Cm, k: usize) -> Result<Vec<f64>, String> {
    let cols = row.len();
    let mut out = vec![0.0; cols + 1];
    out[cols] = if method == Cm::Prob { sigmoid(m.base_score) } else { m.base_score };
    let mut lo = m.base_score;
    for t in &m.trees[..k] {
        let path = t.path(row, p)?;
        let wt = |i: usize| t.nodes[i].weight_value as f64;
        match method {
            Cm::Weight => {
                out[cols] += wt(0);
                for s in path.windows(2) {
                    out[t.nodes[s[0]].split_feature] += wt(s[1]) - wt(s[0]);
                }
            }
            Cm::Average => {
                let a = averages(t);
                out[cols] += a[0];
                for s in path.windows(2) {
                    out[t.nodes[s[0]].split_feature] += a[s[1]] - a[s[0]];
                }
            }
            Cm::Prob => {
                out[cols] += sigmoid(lo + wt(0)) - sigmoid(lo);
                for s in path.windows(2) {
                    out[t.nodes[s[0]].split_feature] += sigmoid(lo + wt(s[1])) - sigmoid(lo + wt(s[0]));
                }
                lo += wt(*path.last().unwrap());
            }
            Cm::Branch | Cm::Midpoint | Cm::Mode => {
                for s in path.windows(2) {
                    let n = &t.nodes[s[0]];
                    if n.ternary() && s[1] == n.missing_node {
                        continue;
                    }
                    let (l, r) = (&t.nodes[n.left_child], &t.nodes[n.right_child]);
                    let (hl, hr) = (l.hessian_sum as f64, r.hessian_sum as f64);
                    let (wl, wr) = (l.weight_value as f64, r.weight_value as f64);
                    let own = wt(s[1]);
                    out[n.split_feature] += match method {
                        Cm::Branch => own - if s[1] == n.left_child { wr } else { wl },
                        Cm::Midpoint => own - (wl * hl + wr * hr) / (hl + hr),
                        _ => {
                            if hl == hr {
                                0.0
                            } else if hl > hr {
                                own - wl
                            } else {
                                own - wr
                            }
                        }
                    };
                }
            }
            Cm::Shapley => {
                let none = |_: usize| false;
                out[cols] += expect(t, row, p, &none, 0);
                for (f, v) in shapley(t, row, p) {
                    out[f] += v;
                }
            }
        }
    }
    Ok(out)
}

/// Largest absolute weight times trees: the scale rounding errors refer to.
pub fn scale(m: &Model, k: usize) -> f64 {
    m.trees[..k]
        .iter()
        .map(|t| t.nodes.iter().map(|n| n.weight_value.abs() as f64).fold(0.0, f64::max))
        .sum::<f64>()
}
