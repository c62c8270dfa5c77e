//! Reference analysis of an unsampled model: expected node weights, bounds and
//! gains from routing the training rows by raw value.
use crate::case::*;
use crate::view::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Role {
    Root,
    Left,
    Right,
    Missing,
}

#[derive(Clone, Debug)]
pub struct NodeRef {
    pub role: Role,
    pub parent: Option<usize>,
    /// Expected weight before the learning rate (None: not decidable here).
    pub w: Option<f64>,
    /// Error allowed on that weight.
    pub tol: f64,
    /// Weight interval inherited from constrained ancestors (before lr).
    pub lo: f64,
    pub hi: f64,
}

pub struct TreeRef {
    pub s: TreeStats,
    pub n: Vec<NodeRef>,
}

fn clampb(v: f64, lo: f64, hi: f64) -> f64 {
    if v > hi {
        hi
    } else if v < lo {
        lo
    } else {
        v
    }
}

/// Children must contain the parent in their range.
pub fn bound_to_parent(p: f64, l: f64, r: f64) -> (f64, f64) {
    let (mn, mx) = if l < r { (l, r) } else { (r, l) };
    if p >= mn && p <= mx {
        return (l, r);
    }
    if p > mx {
        // the higher child is raised to the parent
        if l > r {
            (p, r)
        } else {
            (l, p)
        }
    } else {
        // the lower child is lowered to the parent
        if l > r {
            (l, p)
        } else {
            (p, r)
        }
    }
}

impl TreeStats {
    /// Error of the Newton step of a node with these sums.
    pub fn wtol(&self, p: &Params, g: f64, h: f64) -> f64 {
        let den = (h - self.tol_h).max(0.0) + p.l2 as f64;
        if den <= 0.0 {
            return f64::INFINITY;
        }
        let w = newton(p, g, h);
        (self.tol_g + w.abs() * self.tol_h) / den + 3e-6 * w.abs() + 1e-9 * self.unit
    }
}

pub fn analyse(m: &Model, c: &Case) -> Result<Vec<TreeRef>, String> {
    analyse_with(m, c, None)
}
pub fn analyse_with(m: &Model, c: &Case, fac: Option<&[Vec<f32>]>) -> Result<Vec<TreeRef>, String> {
    let stats = replay_with(m, c, fac)?;
    let p = &c.p;
    let lr = p.lr as f64;
    let avg_leaf = p.cmb && p.mnt == Mnt::AvgLeaf;
    let mut out = vec![];
    for (t, s) in m.trees.iter().zip(stats) {
        let mut n = vec![
            NodeRef {
                role: Role::Root,
                parent: None,
                w: None,
                tol: 0.0,
                lo: f64::NEG_INFINITY,
                hi: f64::INFINITY,
            };
            t.nodes.len()
        ];
        let st = |i: usize| (s.st[i].g, s.st[i].h);
        {
            let (g, h) = st(0);
            n[0].w = Some(newton(p, g, h));
            n[0].tol = s.wtol(p, g, h);
        }
        // Parents come before children in any well formed tree walk.
        let mut stack = vec![0usize];
        while let Some(i) = stack.pop() {
            let nd = &t.nodes[i];
            if nd.is_leaf {
                continue;
            }
            let (l, r) = (nd.left_child, nd.right_child);
            let (lo, hi) = (n[i].lo, n[i].hi);
            let (gl, hl) = st(l);
            let (gr, hr) = st(r);
            let mut wl = clampb(newton(p, gl, hl), lo, hi);
            let mut wr = clampb(newton(p, gr, hr), lo, hi);
            let mut tl = s.wtol(p, gl, hl);
            let mut tr = s.wtol(p, gr, hr);
            let mut known = true;
            if p.force && nd.ternary() {
                // Only decidable when the parent's weight is.
                match n[i].w {
                    Some(pw) => {
                        let apart = (wl - wr).abs();
                        let (a, b) = bound_to_parent(pw, wl, wr);
                        wl = a;
                        wr = b;
                        let e = tl.max(tr).max(n[i].tol);
                        tl = e;
                        tr = e;
                        // The two cases meet discontinuously when the
                        // children are (nearly) equal.
                        if apart <= 2.0 * e {
                            known = false;
                        }
                    }
                    None => known = false,
                }
            }
            let con = p.con(nd.split_feature);
            let (sl, sr) = if lr > 0.0 && !avg_leaf {
                (t.nodes[l].weight_value as f64 / lr, t.nodes[r].weight_value as f64 / lr)
            } else {
                (wl, wr)
            };
            let mid = (sl + sr) / 2.0;
            let (bl, br) = match con {
                1 => ((lo, mid), (mid, hi)),
                -1 => ((mid, hi), (lo, mid)),
                _ => ((lo, hi), (lo, hi)),
            };
            let bound_tol = 3e-6 * (sl.abs() + sr.abs());
            n[l] = NodeRef { role: Role::Left, parent: Some(i), w: if known { Some(wl) } else { None }, tol: tl + bound_tol, lo: bl.0, hi: bl.1 };
            n[r] = NodeRef { role: Role::Right, parent: Some(i), w: if known { Some(wr) } else { None }, tol: tr + bound_tol, lo: br.0, hi: br.1 };
            stack.push(l);
            stack.push(r);
            if nd.ternary() {
                let k = nd.missing_node;
                let (gm, hm) = st(k);
                let (w, tol) = match p.mnt {
                    Mnt::Parent => (n[i].w, n[i].tol),
                    Mnt::None => {
                        if s.st[k].rows.is_empty() {
                            (n[i].w, n[i].tol)
                        } else if hm <= s.tol_h * 4.0 {
                            (None, 0.0)
                        } else {
                            (Some(clampb(newton(p, gm, hm), lo, hi)), s.wtol(p, gm, hm))
                        }
                    }
                    Mnt::AvgNode | Mnt::AvgLeaf => {
                        if known && hl + hr > 0.0 {
                            (Some((wl * hl + wr * hr) / (hl + hr)), tl + tr + 1e-5 * (wl.abs() + wr.abs()))
                        } else {
                            (None, 0.0)
                        }
                    }
                };
                n[k] = NodeRef { role: Role::Missing, parent: Some(i), w, tol, lo, hi };
                stack.push(k);
            }
        }
        out.push(TreeRef { s, n });
    }
    Ok(out)
}

/// Loss reduction of giving weight `w` to a node with these sums.
pub fn gain_w(p: &Params, g: f64, h: f64, w: f64) -> f64 {
    -(2.0 * g * w + (h + p.l2 as f64) * w * w)
}
pub fn gain_err(s: &TreeStats, g: f64, h: f64, w: f64) -> f64 {
    2.0 * w.abs() * s.tol_g + w * w * s.tol_h + 2e-6 * (2.0 * g * w).abs().max(h * w * w)
}
