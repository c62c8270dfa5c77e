//! Cases: training data, parameters and evaluation sets, with an exact JSON form
//! so that every violation can be replayed.
use forust_ml::constraints::{Constraint, ConstraintMap};
use forust_ml::gradientbooster::{EvaluationData, GrowPolicy, MissingNodeTreatment};
use forust_ml::metric::Metric;
use forust_ml::objective::ObjectiveType;
use forust_ml::sampler::SampleMethod;
use forust_ml::{GradientBooster, Matrix};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Obj {
    Log,
    Sq,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Samp {
    None,
    Random,
    Goss,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Grow {
    Depth,
    Loss,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mnt {
    None,
    Parent,
    AvgLeaf,
    AvgNode,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Met {
    Auc,
    Log,
    Rmsle,
    Rmse,
}

#[derive(Clone, Debug)]
pub struct Params {
    pub obj: Obj,
    pub iterations: usize,
    pub lr: f32,
    pub max_depth: usize,
    pub max_leaves: usize,
    pub l1: f32,
    pub l2: f32,
    pub gamma: f32,
    pub mds: f32,
    pub mlw: f32,
    pub base_score: f64,
    pub nbins: u16,
    pub parallel: bool,
    pub ams: bool,
    /// None = no constraint map at all.
    pub mono: Option<BTreeMap<usize, i8>>,
    pub subsample: f32,
    pub top_rate: f64,
    pub other_rate: f64,
    pub colsample: f64,
    pub seed: u64,
    pub missing: f64,
    pub cmb: bool,
    pub samp: Samp,
    pub grow: Grow,
    pub metric: Option<Met>,
    pub esr: Option<usize>,
    pub init_base: bool,
    pub terminate: BTreeSet<usize>,
    pub mnt: Mnt,
    pub log_iterations: usize,
    pub force: bool,
}

impl Default for Params {
    fn default() -> Self {
        Params {
            obj: Obj::Log,
            iterations: 3,
            lr: 0.3,
            max_depth: 4,
            max_leaves: usize::MAX,
            l1: 0.,
            l2: 1.,
            gamma: 0.,
            mds: 0.,
            mlw: 1.,
            base_score: 0.5,
            nbins: 256,
            parallel: false,
            ams: true,
            mono: None,
            subsample: 1.,
            top_rate: 0.1,
            other_rate: 0.2,
            colsample: 1.0,
            seed: 0,
            missing: f64::NAN,
            cmb: false,
            samp: Samp::None,
            grow: Grow::Depth,
            metric: None,
            esr: None,
            init_base: false,
            terminate: BTreeSet::new(),
            mnt: Mnt::Parent,
            log_iterations: 0,
            force: false,
        }
    }
}

pub fn metric_of(m: Met) -> Metric {
    match m {
        Met::Auc => Metric::AUC,
        Met::Log => Metric::LogLoss,
        Met::Rmsle => Metric::RootMeanSquaredLogError,
        Met::Rmse => Metric::RootMeanSquaredError,
    }
}
pub fn grow_of(g: Grow) -> GrowPolicy {
    match g {
        Grow::Depth => GrowPolicy::DepthWise,
        Grow::Loss => GrowPolicy::LossGuide,
    }
}
pub fn samp_of(s: Samp) -> SampleMethod {
    match s {
        Samp::None => SampleMethod::None,
        Samp::Random => SampleMethod::Random,
        Samp::Goss => SampleMethod::Goss,
    }
}
pub fn obj_of(o: Obj) -> ObjectiveType {
    match o {
        Obj::Log => ObjectiveType::LogLoss,
        Obj::Sq => ObjectiveType::SquaredLoss,
    }
}
pub fn mnt_of(m: Mnt) -> MissingNodeTreatment {
    match m {
        Mnt::None => MissingNodeTreatment::None,
        Mnt::Parent => MissingNodeTreatment::AssignToParent,
        Mnt::AvgLeaf => MissingNodeTreatment::AverageLeafWeight,
        Mnt::AvgNode => MissingNodeTreatment::AverageNodeWeight,
    }
}

impl Params {
    pub fn mono_map(&self) -> Option<ConstraintMap> {
        self.mono.as_ref().map(|m| {
            m.iter()
                .map(|(k, v)| {
                    (
                        *k,
                        match v {
                            1 => Constraint::Positive,
                            -1 => Constraint::Negative,
                            _ => Constraint::Unconstrained,
                        },
                    )
                })
                .collect()
        })
    }
    pub fn terminate_set(&self) -> HashSet<usize> {
        self.terminate.iter().copied().collect()
    }
    pub fn build(&self) -> Result<GradientBooster, String> {
        GradientBooster::new(
            obj_of(self.obj),
            self.iterations,
            self.lr,
            self.max_depth,
            self.max_leaves,
            self.l1,
            self.l2,
            self.gamma,
            self.mds,
            self.mlw,
            self.base_score,
            self.nbins,
            self.parallel,
            self.ams,
            self.mono_map(),
            self.subsample,
            self.top_rate,
            self.other_rate,
            self.colsample,
            self.seed,
            self.missing,
            self.cmb,
            samp_of(self.samp),
            grow_of(self.grow),
            self.metric.map(metric_of),
            self.esr,
            self.init_base,
            self.terminate_set(),
            mnt_of(self.mnt),
            self.log_iterations,
            self.force,
        )
        .map_err(|e| e.to_string())
    }
    /// Writes every parameter into an existing model.
    pub fn apply(&self, b: &mut GradientBooster) {
        b.objective_type = obj_of(self.obj);
        b.iterations = self.iterations;
        b.learning_rate = self.lr;
        b.max_depth = self.max_depth;
        b.max_leaves = self.max_leaves;
        b.l1 = self.l1;
        b.l2 = self.l2;
        b.gamma = self.gamma;
        b.max_delta_step = self.mds;
        b.min_leaf_weight = self.mlw;
        b.base_score = self.base_score;
        b.nbins = self.nbins;
        b.parallel = self.parallel;
        b.allow_missing_splits = self.ams;
        b.monotone_constraints = self.mono_map();
        b.subsample = self.subsample;
        b.top_rate = self.top_rate;
        b.other_rate = self.other_rate;
        b.colsample_bytree = self.colsample;
        b.seed = self.seed;
        b.missing = self.missing;
        b.create_missing_branch = self.cmb;
        b.sample_method = samp_of(self.samp);
        b.grow_policy = grow_of(self.grow);
        b.evaluation_metric = self.metric.map(metric_of);
        b.early_stopping_rounds = self.esr;
        b.initialize_base_score = self.init_base;
        b.terminate_missing_features = self.terminate_set();
        b.missing_node_treatment = mnt_of(self.mnt);
        b.log_iterations = self.log_iterations;
        b.force_children_to_bound_parent = self.force;
    }
    /// Constraint on a feature: -1, 0 or 1.
    pub fn con(&self, f: usize) -> i8 {
        self.mono
            .as_ref()
            .and_then(|m| m.get(&f).copied())
            .unwrap_or(0)
    }
    pub fn has_con(&self) -> bool {
        self.mono
            .as_ref()
            .map(|m| m.values().any(|v| *v != 0))
            .unwrap_or(false)
    }
    pub fn is_missing(&self, v: f64) -> bool {
        if self.missing.is_nan() {
            v.is_nan()
        } else {
            v == self.missing
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Data {
    pub rows: usize,
    pub cols: usize,
    /// Column major.
    pub x: Vec<f64>,
    pub y: Vec<f64>,
    pub w: Vec<f64>,
}

impl Data {
    pub fn get(&self, i: usize, j: usize) -> f64 {
        self.x[j * self.rows + i]
    }
    pub fn row(&self, i: usize) -> Vec<f64> {
        (0..self.cols).map(|j| self.get(i, j)).collect()
    }
    pub fn m(&self) -> Matrix<'_, f64> {
        Matrix::new(&self.x, self.rows, self.cols)
    }
    pub fn col(&self, j: usize) -> &[f64] {
        &self.x[j * self.rows..(j + 1) * self.rows]
    }
    /// Keep the given rows (in that order, repetitions allowed).
    pub fn take(&self, idx: &[usize]) -> Data {
        let mut x = Vec::with_capacity(idx.len() * self.cols);
        for j in 0..self.cols {
            for i in idx {
                x.push(self.get(*i, j));
            }
        }
        Data {
            rows: idx.len(),
            cols: self.cols,
            x,
            y: idx.iter().map(|i| self.y[*i]).collect(),
            w: idx.iter().map(|i| self.w[*i]).collect(),
        }
    }
    pub fn from_rows(rows: &[Vec<f64>], cols: usize) -> Data {
        let mut x = Vec::with_capacity(rows.len() * cols);
        for j in 0..cols {
            for r in rows {
                x.push(r[j]);
            }
        }
        Data {
            rows: rows.len(),
            cols,
            x,
            y: vec![0.; rows.len()],
            w: vec![1.; rows.len()],
        }
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub label: String,
    pub p: Params,
    pub d: Data,
    pub evals: Vec<Data>,
}

impl Case {
    pub fn fit_with(&self, b: &mut GradientBooster) -> Result<(), String> {
        let m = self.d.m();
        let evals: Option<Vec<EvaluationData>> = if self.evals.is_empty() {
            None
        } else {
            Some(
                self.evals
                    .iter()
                    .map(|e| (e.m(), e.y.as_slice(), e.w.as_slice()))
                    .collect(),
            )
        };
        b.fit(&m, &self.d.y, &self.d.w, evals)
            .map_err(|e| e.to_string())
    }
    pub fn train(&self) -> Result<GradientBooster, String> {
        let mut b = self.p.build()?;
        self.fit_with(&mut b)?;
        Ok(b)
    }
}

// ------------------------------------------------------------------ JSON form
pub fn fj(v: f64) -> Value {
    if v.is_finite() {
        json!(v)
    } else {
        json!(format!("{}", v))
    }
}
pub fn fv(v: &Value) -> f64 {
    match v {
        Value::Number(n) => n.as_f64().unwrap_or(f64::NAN),
        Value::String(s) => s.parse().unwrap_or(f64::NAN),
        _ => f64::NAN,
    }
}
fn vj(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| fj(*x)).collect())
}
fn vv(v: &Value) -> Vec<f64> {
    v.as_array()
        .map(|a| a.iter().map(fv).collect())
        .unwrap_or_default()
}

impl Data {
    pub fn to_json(&self) -> Value {
        json!({"rows": self.rows, "cols": self.cols, "x": vj(&self.x), "y": vj(&self.y), "w": vj(&self.w)})
    }
    pub fn from_json(v: &Value) -> Data {
        Data {
            rows: v["rows"].as_u64().unwrap_or(0) as usize,
            cols: v["cols"].as_u64().unwrap_or(0) as usize,
            x: vv(&v["x"]),
            y: vv(&v["y"]),
            w: vv(&v["w"]),
        }
    }
}

impl Params {
    pub fn to_json(&self) -> Value {
        json!({
            "objective": format!("{:?}", self.obj),
            "iterations": self.iterations,
            "learning_rate": fj(self.lr as f64),
            "max_depth": self.max_depth,
            "max_leaves": self.max_leaves,
            "l1": fj(self.l1 as f64),
            "l2": fj(self.l2 as f64),
            "gamma": fj(self.gamma as f64),
            "max_delta_step": fj(self.mds as f64),
            "min_leaf_weight": fj(self.mlw as f64),
            "base_score": fj(self.base_score),
            "nbins": self.nbins,
            "parallel": self.parallel,
            "allow_missing_splits": self.ams,
            "monotone_constraints": self.mono.as_ref().map(|m| m.iter().map(|(k,v)| (k.to_string(), *v)).collect::<BTreeMap<String,i8>>()),
            "subsample": fj(self.subsample as f64),
            "top_rate": fj(self.top_rate),
            "other_rate": fj(self.other_rate),
            "colsample_bytree": fj(self.colsample),
            "seed": self.seed,
            "missing": fj(self.missing),
            "create_missing_branch": self.cmb,
            "sample_method": format!("{:?}", self.samp),
            "grow_policy": format!("{:?}", self.grow),
            "evaluation_metric": self.metric.map(|m| format!("{:?}", m)),
            "early_stopping_rounds": self.esr,
            "initialize_base_score": self.init_base,
            "terminate_missing_features": self.terminate.iter().copied().collect::<Vec<_>>(),
            "missing_node_treatment": format!("{:?}", self.mnt),
            "log_iterations": self.log_iterations,
            "force_children_to_bound_parent": self.force,
        })
    }
    pub fn from_json(v: &Value) -> Params {
        let us = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
        Params {
            obj: if v["objective"] == "Sq" { Obj::Sq } else { Obj::Log },
            iterations: us("iterations"),
            lr: fv(&v["learning_rate"]) as f32,
            max_depth: us("max_depth"),
            max_leaves: us("max_leaves"),
            l1: fv(&v["l1"]) as f32,
            l2: fv(&v["l2"]) as f32,
            gamma: fv(&v["gamma"]) as f32,
            mds: fv(&v["max_delta_step"]) as f32,
            mlw: fv(&v["min_leaf_weight"]) as f32,
            base_score: fv(&v["base_score"]),
            nbins: us("nbins") as u16,
            parallel: v["parallel"].as_bool().unwrap_or(false),
            ams: v["allow_missing_splits"].as_bool().unwrap_or(true),
            mono: v["monotone_constraints"].as_object().map(|m| {
                m.iter()
                    .map(|(k, v)| (k.parse().unwrap_or(0), v.as_i64().unwrap_or(0) as i8))
                    .collect()
            }),
            subsample: fv(&v["subsample"]) as f32,
            top_rate: fv(&v["top_rate"]),
            other_rate: fv(&v["other_rate"]),
            colsample: fv(&v["colsample_bytree"]),
            seed: v["seed"].as_u64().unwrap_or(0),
            missing: fv(&v["missing"]),
            cmb: v["create_missing_branch"].as_bool().unwrap_or(false),
            samp: match v["sample_method"].as_str() {
                Some("Random") => Samp::Random,
                Some("Goss") => Samp::Goss,
                _ => Samp::None,
            },
            grow: if v["grow_policy"] == "Loss" { Grow::Loss } else { Grow::Depth },
            metric: match v["evaluation_metric"].as_str() {
                Some("Auc") => Some(Met::Auc),
                Some("Log") => Some(Met::Log),
                Some("Rmsle") => Some(Met::Rmsle),
                Some("Rmse") => Some(Met::Rmse),
                _ => None,
            },
            esr: v["early_stopping_rounds"].as_u64().map(|x| x as usize),
            init_base: v["initialize_base_score"].as_bool().unwrap_or(false),
            terminate: v["terminate_missing_features"]
                .as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as usize).collect())
                .unwrap_or_default(),
            mnt: match v["missing_node_treatment"].as_str() {
                Some("None") => Mnt::None,
                Some("AvgLeaf") => Mnt::AvgLeaf,
                Some("AvgNode") => Mnt::AvgNode,
                _ => Mnt::Parent,
            },
            log_iterations: us("log_iterations"),
            force: v["force_children_to_bound_parent"].as_bool().unwrap_or(false),
        }
    }
}

impl Case {
    pub fn to_json(&self) -> Value {
        json!({
            "label": self.label,
            "params": self.p.to_json(),
            "data": self.d.to_json(),
            "evals": self.evals.iter().map(|e| e.to_json()).collect::<Vec<_>>(),
        })
    }
    pub fn from_json(v: &Value) -> Case {
        Case {
            label: v["label"].as_str().unwrap_or("").to_string(),
            p: Params::from_json(&v["params"]),
            d: Data::from_json(&v["data"]),
            evals: v["evals"]
                .as_array()
                .map(|a| a.iter().map(Data::from_json).collect())
                .unwrap_or_default(),
        }
    }
    /// Short form for evidence samples.
    pub fn brief(&self) -> Value {
        let mut p = self.p.to_json();
        let d = Params::default().to_json();
        if let (Some(o), Some(dd)) = (p.as_object_mut(), d.as_object()) {
            let keys: Vec<String> = o
                .iter()
                .filter(|(k, v)| dd.get(*k) == Some(*v))
                .map(|(k, _)| k.clone())
                .collect();
            for k in keys {
                o.remove(&k);
            }
        }
        json!({"label": self.label, "rows": self.d.rows, "cols": self.d.cols, "non_default_params": p,
               "eval_sets": self.evals.len(), "first_row": vj(&if self.d.rows > 0 { self.d.row(0) } else { vec![] })})
    }
}
