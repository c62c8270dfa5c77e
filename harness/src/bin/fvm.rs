#[path = "../checks/mod.rs"]
mod checks;
#[path = "../synth.rs"]
mod synth;

use fvm::run::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64};
use std::sync::Mutex;
use std::time::Instant;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").map(|s| s == "thorough").unwrap_or(false);
    let only = get("--only").and_then(|s| {
        let mut p = s.rsplitn(2, ':');
        let i = p.next()?.parse().ok()?;
        Some((p.next()?.to_string(), i))
    });
    let threads = get("--threads")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let listed = get("--known")
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| {
            s.lines()
                .filter_map(|l| {
                    let l = l.trim();
                    let rest = l.strip_prefix("known: property=")?;
                    let (pid, rest) = rest.split_once(' ')?;
                    if pid != id {
                        return None;
                    }
                    let rest = rest.strip_prefix("kind=")?;
                    let (kind, text) = rest.split_once(' ')?;
                    Some((kind.to_string(), text.to_string()))
                })
                .collect()
        })
        .unwrap_or_default();
    install_panic_hook();
    let ctx = Ctx {
        id: id.clone(),
        seed,
        thorough,
        only,
        threads,
        start: Instant::now(),
        violations: Mutex::new(vec![]),
        counts: Mutex::new(BTreeMap::new()),
        evals: AtomicU64::new(0),
        distinct: Mutex::new(HashSet::new()),
        samples: Mutex::new(vec![]),
        known: Mutex::new(BTreeMap::new()),
        listed,
        rule: Mutex::new(String::new()),
        harness_errors: Mutex::new(vec![]),
        stop: AtomicBool::new(false),
        out: get("--out"),
        inflight: Mutex::new(vec![]),
    };
    if !checks::dispatch(&id, &ctx) {
        eprintln!("unknown check {}", id);
        std::process::exit(2);
    }
    ctx.finish()
}
