"""Workload generator, reference evaluation of a model dump and reporting for the
Python monitors.  Everything random comes from (seed, stage, idx), so one case can
be replayed alone."""
import hashlib
import json
import math
import struct
import warnings

import numpy as np
import pandas as pd


class Fail(Exception):
    """A violation of the monitored property."""

    def __init__(self, kind, message):
        super().__init__(message)
        self.kind = kind


class W:
    """One case: counts what it saw, reports at most one violation."""

    def __init__(self, stage, idx, seed):
        self.stage, self.idx = stage, idx
        h = hashlib.sha256(("%s/%s/%s" % (seed, stage, idx)).encode()).digest()
        self.rng = np.random.default_rng(list(struct.unpack("<8I", h)))
        self.observed = {}
        self.evaluations = 0
        self.digests = set()
        self.case = {"stage": stage, "idx": idx, "seed": seed}
        self.sample = None

    def count(self, what, n=1):
        self.observed[what] = self.observed.get(what, 0) + int(n)

    def must(self, cond, kind, message):
        self.evaluations += 1
        if not cond:
            raise Fail(kind, message if isinstance(message, str) else message())

    def nontrivial(self, *parts):
        h = hashlib.sha256()
        for p in parts:
            h.update(p if isinstance(p, bytes) else repr(p).encode())
            h.update(b"\0")
        self.digests.add(h.hexdigest()[:16])

    # choices
    def p(self, q):
        return bool(self.rng.random() < q)

    def of(self, *xs):
        return xs[int(self.rng.integers(len(xs)))]

    def int(self, lo, hi):
        return int(self.rng.integers(lo, hi + 1))


# ---------------------------------------------------------------- workload
def values(w, n, kind):
    r = w.rng
    if kind == "bin":
        return r.integers(0, 2, n).astype("float64")
    if kind == "small":
        return r.integers(-3, 5, n).astype("float64")
    if kind == "int":
        return r.integers(-100, 100, n).astype("float64")
    if kind == "f32":
        return r.normal(size=n).astype("float32").astype("float64")
    if kind == "real":
        return r.normal(size=n)
    if kind == "skew":
        return np.exp(r.normal(size=n) * 2)
    if kind == "const":
        return np.full(n, float(r.integers(-2, 3)))
    raise ValueError(kind)


def gen_x(w, n, c, missing=np.nan, kinds=None, pmiss=None):
    kinds = kinds or ["bin", "small", "small", "int", "f32", "real", "real", "skew", "const"]
    cols = [values(w, n, w.of(*kinds)) for _ in range(c)]
    x = np.column_stack(cols) if c else np.zeros((n, 0))
    pm = w.of(0.0, 0.0, 0.1, 0.3, 0.6) if pmiss is None else pmiss
    if pm:
        m = w.rng.random((n, c)) < pm
        m[:, w.rng.random(c) < 0.3] = False
        x[m] = missing
    return np.ascontiguousarray(x)


def gen_y(w, x, objective):
    n = x.shape[0]
    s = np.where(np.isnan(x), 0.7, x)
    s = np.tanh(s).sum(axis=1) if x.shape[1] else np.zeros(n)
    s = s + w.rng.normal(size=n) * w.of(0.1, 0.5, 2.0)
    if objective == "LogLoss":
        y = (s > np.median(s)).astype("float64")
        if n > 1 and (y.min() == y.max()):
            y[w.int(0, n - 1)] = 1.0 - y[0]
        return y
    if w.p(0.5):
        return np.round(s * 4) / 4 + w.of(0.0, 3.0)
    return s * w.of(1.0, 10.0)


def gen_params(w, c, **over):
    p = {"objective_type": w.of("LogLoss", "SquaredLoss"), "iterations": w.int(1, 8)}
    opt = {
        "learning_rate": lambda: w.of(0.1, 0.3, 0.5, 1.0),
        "max_depth": lambda: w.int(1, 5),
        "max_leaves": lambda: w.int(2, 12),
        "l1": lambda: w.of(0.0, 0.1, 1.0),
        "l2": lambda: w.of(0.5, 1.0, 3.0),
        "gamma": lambda: w.of(0.0, 0.05, 0.5),
        "max_delta_step": lambda: w.of(0.0, 0.3),
        "min_leaf_weight": lambda: w.of(0.0, 0.3, 1.0, 2.0),
        "nbins": lambda: w.of(3, 10, 256),
        "parallel": lambda: w.p(0.5),
        "allow_missing_splits": lambda: w.p(0.5),
        "create_missing_branch": lambda: w.p(0.6),
        "seed": lambda: w.int(0, 1000),
        "grow_policy": lambda: w.of("DepthWise", "LossGuide"),
        "missing_node_treatment": lambda: w.of("None", "AssignToParent", "AverageLeafWeight", "AverageNodeWeight"),
        "initialize_base_score": lambda: w.p(0.5),
        "subsample": lambda: w.of(0.5, 0.8),
        "sample_method": lambda: w.of("goss", "random", None),
        "colsample_bytree": lambda: w.of(0.5, 0.8, 1.0),
        "top_rate": lambda: w.of(0.1, 0.3),
        "other_rate": lambda: w.of(0.2, 0.4),
        "feature_importance_method": lambda: w.of("Weight", "Gain", "Cover", "TotalGain", "TotalCover"),
        "force_children_to_bound_parent": lambda: w.p(0.5),
    }
    rare = {"subsample", "sample_method", "colsample_bytree", "top_rate", "other_rate"}
    for k, g in opt.items():
        if w.p(0.15 if k in rare else 0.4):
            p[k] = g()
    if p.get("initialize_base_score") is False and w.p(0.7):
        p["base_score"] = w.of(0.5, 0.0, -1.25, 2.0)
    p.update(over)
    return p


NAMES = ["a", "b b", "pclass", "x_1", "naïve", "Ünï", "f0", "1", "it's", 'q"uote', "back\\slash", "日本", "", "fare", "tab\tname", "sum(x)"]


def gen_names(w, c):
    k = w.of("text", "text", "text", "odd", "int", "offint")
    if k == "int":
        return list(range(c))
    if k == "offint":
        return [int(v) for v in w.rng.permutation(c + 5)[:c]]
    if k == "odd":
        return [NAMES[i] for i in w.rng.permutation(len(NAMES))[:c]] if c <= len(NAMES) else ["c%d" % i for i in range(c)]
    return ["c%d" % i for i in w.rng.permutation(c)]


def gen_weights(w, n):
    k = w.of("none", "none", "unit", "ints", "real")
    if k == "none":
        return None
    if k == "unit":
        return np.ones(n)
    if k == "ints":
        return w.rng.integers(1, 5, n).astype("float64")
    return np.round(w.rng.random(n) * 64 + 1) / 16


def quiet():
    c = warnings.catch_warnings()
    return c


# ---------------------------------------------------------------- reference
def jload(s):
    """The dump as JSON; NaN and infinities are kept as the dump writes them."""
    return json.loads(s)


def is_missing(v, missing):
    return math.isnan(v) if math.isnan(missing) else v == missing


def walk(nodes, row, missing):
    """Node numbers from the root to the leaf."""
    i, path = 0, []
    while True:
        n = nodes[i]
        path.append(i)
        if n["is_leaf"]:
            return path
        v = row[n["split_feature"]]
        if is_missing(v, missing):
            i = n["missing_node"]
        elif v < n["split_value"]:
            i = n["left_child"]
        else:
            i = n["right_child"]


def used_trees(model):
    it = model.prediction_iteration
    trees = jload(model.json_dump())["trees"]
    return trees if it is None else trees[:it]


def ref_leaves(model, x):
    trees = used_trees(model)
    return np.array([[walk(t["nodes"], row, model.missing)[-1] for t in trees] for row in x], dtype=float).reshape(len(x), len(trees))


def ref_predict(model, x):
    d = jload(model.json_dump())
    trees = used_trees(model)
    out = []
    for row in x:
        s = 0.0
        for t in trees:
            s += float(np.float32(t["nodes"][walk(t["nodes"], row, model.missing)[-1]]["weight_value"]))
        out.append(s + d["base_score"])
    return np.array(out)


def same(a, b):
    """Equal up to NaN."""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def beq(a, b):
    """Bit equality of two arrays (shape, dtype, contents)."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.ascontiguousarray(a).tobytes() == np.ascontiguousarray(b).tobytes()


def close(a, b, scale=1.0, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    eq = (a == b) | (np.isnan(a) & np.isnan(b))
    with np.errstate(invalid="ignore"):
        return bool(np.all(eq | (np.abs(a - b) <= tol * (scale + np.abs(a) + np.abs(b)))))


METHODS = ["Average", "Shapley", "Weight", "BranchDifference", "MidpointDifference", "ModeDifference"]
