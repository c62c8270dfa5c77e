//! Runner: workers, deterministic cases, three-valued verdicts, evidence.
use crate::case::Case;
use crate::rng::Rng;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static GLOBAL_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let s = format!("{} at {}", msg, loc);
        LAST_PANIC.with(|l| *l.borrow_mut() = s.clone());
        *GLOBAL_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = s;
    }));
}

/// Run code under test; a panic becomes Err("panic: ...").
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|l| l.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let mut s = LAST_PANIC.with(|l| l.borrow().clone());
            if s.is_empty() {
                s = GLOBAL_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
            }
            Err(format!("panic: {}", s))
        }
    }
}

pub struct Violation {
    pub idx: u64,
    pub stage: String,
    pub kind: String,
    pub msg: String,
    pub case: Value,
}

pub struct Ctx {
    pub id: String,
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub start: Instant,
    pub violations: Mutex<Vec<Violation>>,
    pub counts: Mutex<BTreeMap<String, u64>>,
    pub evals: AtomicU64,
    pub distinct: Mutex<HashSet<u64>>,
    pub samples: Mutex<Vec<Value>>,
    pub known: Mutex<BTreeMap<String, String>>,
    pub listed: Vec<(String, String)>,
    pub rule: Mutex<String>,
    pub harness_errors: Mutex<Vec<String>>,
    pub stop: AtomicBool,
    /// Where the result goes; next to it one journal file per worker names the
    /// case in flight, so that a crash can be attributed.
    pub out: Option<String>,
    pub inflight: Mutex<Vec<Option<(String, u64, Instant, i32)>>>,
}

fn cpu_of(path: &str) -> f64 {
    // utime + stime in clock ticks (100 per second on Linux)
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(_) => return 0.0,
    };
    let rest = match s.rfind(')') {
        Some(i) => &s[i + 2..],
        None => return 0.0,
    };
    let f: Vec<&str> = rest.split(' ').collect();
    let t: f64 = [11, 12].iter().map(|i| f.get(*i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0)).sum();
    t / 100.0
}
fn gettid() -> i32 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}
/// Factor on the case counts the checks ask for in the quick tier.
pub const QUICK_SCALE: u64 = 5;
/// CPU seconds one case may use before it counts as not returning. Ordinary
/// cases take milliseconds.
pub const STUCK_CPU_S: f64 = 100.0;

/// Per-worker accumulator, merged at the end of a stage.
pub struct W<'a> {
    pub ctx: &'a Ctx,
    pub stage: String,
    pub idx: u64,
    pub counts: BTreeMap<&'static str, u64>,
    failed: bool,
}

impl<'a> W<'a> {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_insert(0) += n;
    }
    pub fn fail(&mut self, kind: &str, msg: String, case: &Case) {
        self.fail_v(kind, msg, case.to_json());
    }
    pub fn fail_v(&mut self, kind: &str, msg: String, case: Value) {
        // Known findings are listed by exact kind.
        if let Some((_, text)) = self.ctx.listed.iter().find(|(k, _)| k == kind) {
            self.ctx.known.lock().unwrap().insert(kind.to_string(), text.clone());
            return;
        }
        self.failed = true;
        let mut v = self.ctx.violations.lock().unwrap();
        if v.len() < 200 {
            v.push(Violation { idx: self.idx, stage: self.stage.clone(), kind: kind.into(), msg, case });
        }
        if std::env::var("FVM_KEEP_GOING").is_err() {
            self.ctx.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.ctx.distinct.lock().unwrap().insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        let mut s = self.ctx.samples.lock().unwrap();
        if s.len() < 4 {
            s.push(f());
        }
    }
    pub fn failed(&self) -> bool {
        self.failed
    }
    /// Run code under test; report a panic as a violation of this property.
    pub fn call<T>(&mut self, what: &str, c: &Case, f: impl FnOnce() -> T) -> Option<T> {
        match sut(f) {
            Ok(v) => Some(v),
            Err(e) => {
                self.fail("panic", format!("{}: {}", what, e), c);
                None
            }
        }
    }
    /// Same for fallible calls that must succeed here.
    pub fn must<T>(&mut self, what: &str, c: &Case, f: impl FnOnce() -> Result<T, String>) -> Option<T> {
        match self.call(what, c, f)? {
            Ok(v) => Some(v),
            Err(e) => {
                self.fail("unexpected-error", format!("{}: {}", what, e), c);
                None
            }
        }
    }
}

impl<'a> W<'a> {
    /// `must` for cases too large to be stored.
    pub fn must_v<T>(&mut self, what: &str, f: impl FnOnce() -> Result<T, String>, case: impl FnOnce() -> Value) -> Option<T> {
        match sut(f) {
            Ok(Ok(v)) => Some(v),
            Ok(Err(e)) => {
                self.fail_v("unexpected-error", format!("{}: {}", what, e), case());
                None
            }
            Err(e) => {
                self.fail_v("panic", format!("{}: {}", what, e), case());
                None
            }
        }
    }
}

impl Ctx {
    /// Runs `f` on cases 0..n (or until the wall budget of the stage is used).
    pub fn stage<F>(&self, name: &str, n_quick: u64, n_thorough: u64, secs_quick: f64, secs_thorough: f64, f: F)
    where
        F: Fn(&mut W, &mut Rng) + Sync,
    {
        if let Some((s, _)) = &self.only {
            if s != name {
                return;
            }
        }
        // case streams (not the single-shot stages) are scaled to fill the quick tier
        let q = if n_quick >= 100 { n_quick * QUICK_SCALE } else { n_quick };
        let n = if self.thorough { n_thorough.max(q) } else { q };
        let budget = Duration::from_secs_f64(if self.thorough { secs_thorough } else { secs_quick });
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let stream = format!("{}/{}", self.id, name);
        let done = AtomicU64::new(0);
        *self.inflight.lock().unwrap() = vec![None; self.threads];
        let live = AtomicUsize::new(self.threads);
        std::thread::scope(|sc| {
            sc.spawn(|| self.watch(&live));
            for k in 0..self.threads {
                let (next, done, live, stream, f) = (&next, &done, &live, &stream, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let tid = gettid();
                        let journal = self
                            .out
                            .as_ref()
                            .and_then(|o| std::fs::File::create(format!("{}.inflight{}", o, k)).ok());
                        let mut w = W {
                            ctx: self,
                            stage: name.to_string(),
                            idx: 0,
                            counts: BTreeMap::new(),
                            failed: false,
                        };
                        loop {
                            let i = match &self.only {
                                Some((_, i)) => {
                                    if next.fetch_add(1, Ordering::Relaxed) > 0 {
                                        break;
                                    }
                                    *i
                                }
                                None => next.fetch_add(1, Ordering::Relaxed) as u64,
                            };
                            if self.only.is_none()
                                && (i >= n || t0.elapsed() > budget || self.stop.load(Ordering::Relaxed))
                            {
                                break;
                            }
                            w.idx = i;
                            if let Some(j) = &journal {
                                use std::os::unix::fs::FileExt;
                                let _ = j.write_all_at(format!("{} {:<12}\n", name, i).as_bytes(), 0);
                            }
                            self.inflight.lock().unwrap()[k] = Some((name.to_string(), i, Instant::now(), tid));
                            let mut rng = Rng::new(self.seed, stream, i);
                            let r = catch_unwind(AssertUnwindSafe(|| f(&mut w, &mut rng)));
                            if r.is_err() {
                                let s = LAST_PANIC.with(|l| l.borrow().clone());
                                self.harness_errors
                                    .lock()
                                    .unwrap()
                                    .push(format!("harness error in {} case {}: {}", name, i, s));
                                self.stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                        }
                        self.inflight.lock().unwrap()[k] = None;
                        live.fetch_sub(1, Ordering::SeqCst);
                        let mut c = self.counts.lock().unwrap();
                        for (k, v) in &w.counts {
                            *c.entry(format!("{}", k)).or_insert(0) += v;
                        }
                    })
                    .expect("spawn");
            }
        });
        let d = done.load(Ordering::Relaxed);
        self.evals.fetch_add(d, Ordering::Relaxed);
        *self.counts.lock().unwrap().entry(format!("cases:{}", name)).or_insert(0) += d;
    }

    /// Reports a case that does not return: its thread (or, once every other
    /// worker is done, the process, for work handed to a thread pool) used far
    /// more CPU time than any case needs, or nothing at all runs any more.
    fn watch(&self, live: &AtomicUsize) {
        let mut base: Vec<Option<(u64, f64, f64, Instant)>> = vec![None; self.threads];
        let mut ticks = 0u32;
        while live.load(Ordering::SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            ticks += 1;
            if ticks % 50 != 0 {
                continue;
            }
            let cur = self.inflight.lock().unwrap().clone();
            let proc = cpu_of("/proc/self/stat");
            let active = cur.iter().filter(|c| c.is_some()).count();
            for (k, c) in cur.iter().enumerate() {
                let (name, i, t0, tid) = match c {
                    Some(v) if v.2.elapsed().as_secs() >= 5 => v,
                    _ => {
                        base[k] = None;
                        continue;
                    }
                };
                let mine = cpu_of(&format!("/proc/self/task/{}/stat", tid));
                let (b_i, b_cpu, b_proc, b_t) = match base[k] {
                    Some(b) if b.0 == *i => b,
                    _ => {
                        base[k] = Some((*i, mine, proc, Instant::now()));
                        continue;
                    }
                };
                let _ = b_i;
                if active > 1 {
                    // process time only counts once this is the only case left
                    if mine - b_cpu < STUCK_CPU_S {
                        base[k] = Some((*i, b_cpu, proc, Instant::now()));
                        continue;
                    }
                }
                let stuck = mine - b_cpu >= STUCK_CPU_S || proc - b_proc >= STUCK_CPU_S;
                let dead = b_t.elapsed().as_secs() >= 240 && proc - b_proc < 0.5;
                if stuck || dead {
                    let kind = if stuck { "does-not-return" } else { "deadlock" };
                    let msg = format!("case {} of stage {} has not returned after {:.0} s (thread CPU {:.0} s, process CPU {:.0} s since it became the suspect)", i, name, t0.elapsed().as_secs_f64(), mine - b_cpu, proc - b_proc);
                    self.violations.lock().unwrap().push(Violation {
                        idx: *i,
                        stage: name.clone(),
                        kind: kind.into(),
                        msg,
                        case: json!({"stage": name, "idx": i, "seed": self.seed}),
                    });
                    self.finish();
                }
            }
        }
    }

    /// Writes the result and ends the process.
    pub fn finish(&self) -> ! {
        let res = self.result();
        match &self.out {
            Some(p) => std::fs::write(p, serde_json::to_string_pretty(&res).unwrap()).expect("write result"),
            None => {
                let mut r = res.clone();
                if let Some(vs) = r["violations"].as_array_mut() {
                    for v in vs.iter_mut() {
                        if v["case"]["params"].is_object() {
                            v["case"] = v["case"]["params"].clone();
                        }
                    }
                }
                println!("{}", serde_json::to_string_pretty(&r).unwrap());
            }
        }
        std::process::exit(0)
    }

    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }

    pub fn result(&self) -> Value {
        let viol: Vec<Value> = self
            .violations
            .lock()
            .unwrap()
            .iter()
            .map(|v| {
                json!({"stage": v.stage, "idx": v.idx, "kind": v.kind, "message": v.msg, "case": v.case})
            })
            .collect();
        let mut obs = Map::new();
        for (k, v) in self.counts.lock().unwrap().iter() {
            obs.insert(k.clone(), json!(v));
        }
        let known: Vec<Value> = self
            .known
            .lock()
            .unwrap()
            .iter()
            .map(|(k, v)| json!({"kind": k, "text": v}))
            .collect();
        json!({
            "violations": viol,
            "known": known,
            "evaluations": self.evals.load(Ordering::Relaxed),
            "distinct_nontrivial": self.distinct.lock().unwrap().len(),
            "observed": obs,
            "rule": *self.rule.lock().unwrap(),
            "samples": *self.samples.lock().unwrap(),
            "harness_errors": *self.harness_errors.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
        })
    }
}
