//! Tiny cases for the undefined-behaviour interpreter: fit, use, explain, save,
//! reload, on one thread and on two.
use forust_ml::gradientbooster::ContributionsMethod::*;
use forust_ml::GradientBooster;
use fvm::case::Obj;
use fvm::gen::*;
use fvm::rng::Rng;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let from: u64 = a[2].parse().unwrap();
    let to: u64 = a[3].parse().unwrap();
    let (mut splits, mut rows) = (0usize, 0usize);
    for i in from..to {
        println!("case {}", i);
        let mut r = Rng::new(seed, "miri", i);
        let prof = Profile { min_rows: if i % 5 == 0 { 1 } else { 5 }, max_rows: 9, big: 0.0, max_cols: 3, wide: 0.0, iters: 2, evals: i % 3 == 0, ..Default::default() };
        let mut c = gen_case(&mut r, &prof);
        c.p.parallel = i % 4 == 0;
        c.p.iterations = if c.p.parallel { 1 } else { c.p.iterations.min(2) };
        c.p.mlw = 0.0;
        c.p.gamma = 0.0;
        c.p.l1 = 0.0;
        c.p.max_depth = c.p.max_depth.clamp(1, 3);
        c.p.max_leaves = c.p.max_leaves.max(3);
        c.p.nbins = c.p.nbins.min(8);
        let par = c.p.parallel;
        let b = match std::panic::catch_unwind(|| c.train()) {
            Ok(Ok(b)) => b,
            _ => continue,
        };
        splits += b.trees.iter().map(|t| t.nodes.iter().filter(|n| !n.is_leaf).count()).sum::<usize>();
        rows += c.d.rows;
        let probe = gen_probe(&mut r, &c.d, &c.p, 3);
        let use_it = |b: &GradientBooster| {
            let m = probe.m();
            let _ = b.predict(&m, par);
            for k in [Weight, Average, BranchDifference, MidpointDifference, ModeDifference, Shapley] {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.predict_contributions(&m, k, par)));
            }
            if matches!(c.p.obj, Obj::Log) {
                let _ = b.predict_contributions(&m, ProbabilityChange, par);
            }
            let _ = b.predict_leaf_indices(&m);
            for f in 0..probe.cols {
                let _ = b.value_partial_dependence(f, probe.get(0, f));
            }
        };
        std::thread::scope(|s| {
            if par {
                s.spawn(|| use_it(&b));
            }
            use_it(&b);
        });
        if let Ok(d) = b.json_dump() {
            if let Ok(l) = GradientBooster::from_json(&d) {
                let _ = l.predict(&probe.m(), false);
            }
        }
    }
    println!("done splits={} rows={}", splits, rows);
}
