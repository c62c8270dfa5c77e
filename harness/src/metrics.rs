//! Textbook definitions of the evaluation metrics.
use crate::case::{Met, Obj, Params};

pub fn metric(m: Met, y: &[f64], f: &[f64], w: &[f64]) -> f64 {
    let tw: f64 = w.iter().sum();
    let mean = |g: &dyn Fn(f64, f64) -> f64| -> f64 {
        let mut s = 0.0;
        for i in 0..y.len() {
            s += w[i] * g(y[i], f[i]);
        }
        s / tw
    };
    match m {
        Met::Auc => {
            // probability that a positive record scores above a negative one
            let (mut num, mut pos, mut neg) = (0.0, 0.0, 0.0);
            for i in 0..y.len() {
                pos += y[i] * w[i];
                neg += (1.0 - y[i]) * w[i];
                for j in 0..y.len() {
                    let pw = y[i] * w[i] * (1.0 - y[j]) * w[j];
                    if f[i] > f[j] {
                        num += pw;
                    } else if f[i] == f[j] {
                        num += 0.5 * pw;
                    }
                }
            }
            if pos <= 0.0 || neg <= 0.0 {
                return f64::NAN;
            }
            num / (pos * neg)
        }
        // -y ln p - (1-y) ln(1-p), with ln p = -ln(1+e^-f), ln(1-p) = -ln(1+e^f)
        Met::Log => mean(&|y, f| {
            let sp = |z: f64| if z > 0.0 { z + (-z).exp().ln_1p() } else { z.exp().ln_1p() };
            y * sp(-f) + (1.0 - y) * sp(f)
        }),
        Met::Rmse => mean(&|y, f| (y - f) * (y - f)).sqrt(),
        Met::Rmsle => mean(&|y, f| {
            let d = (1.0 + y).ln() - (1.0 + f).ln();
            d * d
        })
        .sqrt(),
    }
}

pub fn metric_in_use(p: &Params) -> Met {
    p.metric.unwrap_or(match p.obj {
        Obj::Log => Met::Log,
        Obj::Sq => Met::Rmsle,
    })
}
pub fn maximise(m: Met) -> bool {
    m == Met::Auc
}
/// Is `new` better than `old`? NaN is never better, anything else beats it.
pub fn better(m: Met, old: f64, new: f64) -> bool {
    if new.is_nan() {
        false
    } else if old.is_nan() {
        true
    } else if maximise(m) {
        new > old
    } else {
        new < old
    }
}
pub fn close(a: f64, b: f64, rel: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= rel * (1.0 + a.abs().max(b.abs())).min(1e300)
}
