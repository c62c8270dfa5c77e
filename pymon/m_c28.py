"""Saving, pickling, copying, cloning and reloading keep a Python model."""
import copy
import os
import pathlib
import pickle
import shutil
import tempfile

import numpy as np
import pandas as pd
from core import METHODS, beq, gen_names, gen_params, gen_weights, gen_x, gen_y, jload, same
from forust import GradientBooster

RULE = ("one case = a model with random parameters fitted on an array or a frame, taken through a random chain of save/load, pickle, copy, "
        "deepcopy steps (and clone, get_params/set_params, refit), every observable compared after each step; non-trivial = fitted model with a split")

F32 = {"learning_rate", "l1", "l2", "gamma", "max_delta_step", "min_leaf_weight", "subsample"}


def norm(params):
    """Parameters up to the precision they are used in and to equal spellings."""
    p = dict(params)
    for k in F32:
        p[k] = float(np.float32(p[k]))
    for k in ("base_score", "top_rate", "other_rate", "colsample_bytree", "missing"):
        p[k] = float(p[k])
    sm = p["sample_method"]
    if sm is None and p["subsample"] < 1:
        sm = "Random"
    p["sample_method"] = None if sm is None else sm.lower()
    p["terminate_missing_features"] = sorted((repr(v) for v in p["terminate_missing_features"]))
    p["monotone_constraints"] = {repr(k): v for k, v in (p["monotone_constraints"] or {}).items()}
    return p


def look(m, X):
    """Everything a user can see of a model."""
    dump = jload(m.json_dump())
    dump["terminate_missing_features"] = sorted(dump["terminate_missing_features"])  # a set
    # the names of no feature are the same as no names
    if dump.get("metadata", {}).get("feature_names_in_") == "null":
        del dump["metadata"]["feature_names_in_"]
    o = {"params": norm(m.get_params()), "dump": dump, "base": m.base_score, "best": m.best_iteration, "getbest": m.get_best_iteration(),
         "pred_it": m.prediction_iteration, "trees": m.number_of_trees, "text": m.text_dump(), "n": getattr(m, "n_features_", None),
         "names": list(m.feature_names_in_) if hasattr(m, "feature_names_in_") else None}
    h = m.get_evaluation_history()
    o["history"] = None if h is None else h.tolist()
    if X is not None:
        o["predict"] = m.predict(X).tobytes()
        o["leaves"] = m.predict_leaf_indices(X).tobytes()
        o["contrib"] = m.predict_contributions(X).tobytes()
        o["importance"] = {k: {repr(f): v for f, v in m.calculate_feature_importance(k, normalize=False).items()} for k in ("Gain", "Weight")}
        o["fi"] = m.feature_importances_.tolist()
        o["nodes"] = [[repr(nd) for nd in t] for t in m.get_node_lists()]
    return o


def compare(w, a, b, what):
    for k in a:
        if k == "params":
            for q in a[k]:
                w.must(same(a[k][q], b[k][q]), "parameter-lost", lambda: "after %s parameter %s is %r, was %r" % (what, q, b[k][q], a[k][q]))
        elif k == "dump":
            for q in a[k]:
                w.must(q in b[k] and same(a[k][q], b[k][q]), "dump-differs", lambda: "after %s the dump's %s differs: %.300r instead of %.300r" % (what, q, b[k].get(q), a[k][q]))
        else:
            w.must(same(a[k], b[k]), "%s-differs" % k, lambda: "after %s %s differs: %.300r instead of %.300r" % (what, k, b[k], a[k]))


def step(w, m, tmp):
    k = w.of("save", "save", "save", "pickle", "copy", "deepcopy", "pickle file")
    if k == "save":
        path = os.path.join(tmp, w.of("m.json", "model with space.json", "日本.json", "m"))
        m.save_booster(pathlib.Path(path) if w.p(0.3) else path)
        return k, GradientBooster.load_booster(pathlib.Path(path) if w.p(0.3) else path)
    if k == "pickle":
        return k, pickle.loads(pickle.dumps(m, protocol=w.of(2, 3, 4, 5)))
    if k == "copy":
        return k, copy.copy(m)
    if k == "deepcopy":
        return k, copy.deepcopy(m)
    path = os.path.join(tmp, "p.pkl")
    with open(path, "wb") as f:
        pickle.dump({"m": [m]}, f)
    with open(path, "rb") as f:
        return k, pickle.load(f)["m"][0]


class Fit:
    """A data set in the form a user would pass it, and parameters that go with it."""

    def __init__(self, w, objective=None, marker=None):
        self.n, self.c = w.int(2, 60), w.int(1, 6)
        marker = w.of(np.nan, np.nan, -999.0, 0.0) if marker is None else marker
        x = gen_x(w, self.n, self.c, marker)
        self.frame = w.p(0.6)
        self.names = gen_names(w, self.c) if self.frame else list(range(self.c))
        p = gen_params(w, self.c, missing=marker)
        if objective:
            p["objective_type"] = objective
        self.objective = p["objective_type"]
        y = gen_y(w, np.where(x == marker, np.nan, x), self.objective)
        if w.p(0.5):
            p["monotone_constraints"] = {self.names[int(j)]: w.of(-1, 0, 1) for j in w.rng.permutation(self.c)[: w.int(1, self.c)]}
        if w.p(0.5):
            p["terminate_missing_features"] = w.of(set, list, tuple)(self.names[int(j)] for j in w.rng.permutation(self.c)[: w.int(1, self.c)])
            p["create_missing_branch"] = True
        if w.p(0.1):
            p["log_iterations"] = 1
        self.X = pd.DataFrame(x, columns=self.names) if self.frame else x
        self.y = pd.Series(y) if self.frame and w.p(0.5) else y
        self.wt = gen_weights(w, self.n)
        self.ev = None
        if w.p(0.4):
            ex = gen_x(w, w.int(2, 20), self.c, marker)
            ey = gen_y(w, np.where(ex == marker, np.nan, ex), self.objective)
            self.ev = [(pd.DataFrame(ex, columns=self.names) if self.frame else ex, ey)]
            if w.p(0.3):
                self.ev.append((self.X, self.y, np.ones(self.n)))
            if w.p(0.6):
                p["early_stopping_rounds"] = w.int(1, 3)
            p["evaluation_metric"] = w.of("LogLoss", "AUC", None) if self.objective == "LogLoss" else w.of("RootMeanSquaredError", None)
            if p["evaluation_metric"] is None and self.objective != "LogLoss":
                p["evaluation_metric"] = "RootMeanSquaredError"
        self.params = p

    def fit(self, m):
        return m.fit(self.X, self.y, self.wt, self.ev)


def roundtrip(w):
    tmp = tempfile.mkdtemp(prefix="fvm-c28-")
    try:
        d = Fit(w)
        w.case.update(params=repr(d.params), n=d.n, c=d.c, names=repr(d.names), frame=d.frame)
        m = GradientBooster(**d.params)
        for k, v in d.params.items():
            w.must(same(m.get_params()[k], v) or (v is None), "parameter-lost", "get_params()[%r] is %r after construction with %r" % (k, m.get_params()[k], v))
        d.fit(m)
        if w.p(0.3) and m.number_of_trees:
            m.set_prediction_iteration(w.int(1, m.number_of_trees))
        keys = {}
        if w.p(0.3):
            keys = {"k%d" % i: w.of("", "v", "日本\n\"'\\", "{}", "null") for i in range(w.int(1, 4))}
            for k, v in keys.items():
                m.insert_metadata(k, v)
        if w.p(0.3):
            # a longer file already at the place
            for nme in ("m.json", "m"):
                with open(os.path.join(tmp, nme), "w") as f:
                    f.write("x" * 2000000)
        ref = look(m, d.X)
        splits = sum(not nd["is_leaf"] for t in ref["dump"]["trees"] for nd in t["nodes"])
        cur, chain = m, []
        for _ in range(w.int(1, 4)):
            k, cur = step(w, cur, tmp)
            chain.append(k)
            w.case["chain"] = chain
            w.must(isinstance(cur, GradientBooster), "wrong-type", "a %s" % type(cur))
            compare(w, ref, look(cur, d.X), " then ".join(chain))
            for q, v in keys.items():
                w.must(cur.get_metadata(q) == v, "metadata-lost", "metadata %r is %r after %s, was %r" % (q, cur.get_metadata(q), chain, v))
            w.count("step " + k)
        compare(w, ref, look(m, d.X), "the original's round trip (original)")
        # the copy is independent of the original
        if w.p(0.5):
            cur2 = step(w, m, tmp)[1]
            cur2.insert_metadata("only here", "x")
            cur2.set_prediction_iteration(1)
            try:
                m.get_metadata("only here")
                w.must(False, "copy-shares-state", "metadata put on a copy shows on the original")
            except KeyError:
                w.must(True, "", "")
            compare(w, ref, look(m, d.X), "changing a copy, the original")
        # refit of the copy = refit of the original
        if splits:
            w.nontrivial(w.idx, ref["predict"], tuple(chain))
        d.fit(cur)
        d.fit(m)
        a, b = look(m, d.X), look(cur, d.X)
        compare(w, a, b, "refitting the result of " + " then ".join(chain))
        w.count("refits after reload")
        if d.frame:
            w.count("named models")
            if d.params.get("monotone_constraints"):
                w.count("named constraints")
            if d.params.get("terminate_missing_features"):
                w.count("named terminate features")
        if w.idx < 3:
            w.sample = dict(w.case, splits=splits)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def reuse(w):
    """A model object used for one fit behaves like a fresh one for the next."""
    d1 = Fit(w)
    d2 = Fit(w, objective=d1.objective, marker=d1.params["missing"])
    w.case.update(first=repr(d1.params), second=repr(d2.params), names1=repr(d1.names), names2=repr(d2.names), frames=[d1.frame, d2.frame])
    m = GradientBooster(**d1.params)
    how = w.of("set_params", "set_params", "clone", "same")
    if how == "same":
        # same parameters, other data: constraints and features that both sides know
        for q in ("monotone_constraints", "terminate_missing_features"):
            d1.params.pop(q, None)
        d2.params = dict(d1.params)
        m = GradientBooster(**d1.params)
        if d1.ev is None or d2.ev is None:
            d1.ev = d2.ev = None
    d1.fit(m)
    base_after = m.base_score
    if how == "set_params":
        full = dict(GradientBooster().get_params(), **d2.params)
        if w.p(0.5):
            r = m.set_params(**full)
        else:
            for k in w.rng.permutation(list(full)):
                r = m.set_params(**{str(k): full[k]})
        w.must(r is m, "set_params-returns-self", "set_params did not return the model")
        got = m.get_params()
        for k, v in full.items():
            w.must(same(got[k], v), "parameter-lost", "set_params(%s=%r) left %r" % (k, v, got[k]))
        fresh_params = d2.params
    elif how == "clone":
        try:
            from sklearn.base import clone
        except ImportError:
            def clone(o):
                return GradientBooster(**copy.deepcopy(o.get_params()))
        m = clone(m)
        w.must(m.number_of_trees == 0, "clone-is-fitted", "a clone has trees")
        d2, fresh_params = d1, d1.params
        if not d1.params.get("initialize_base_score", True):
            w.must(m.base_score == base_after, "parameter-lost", "base score of a clone")
    else:
        fresh_params = d2.params
    fresh = GradientBooster(**fresh_params)
    d2.fit(fresh)
    d2.fit(m)
    a, b = look(fresh, d2.X), look(m, d2.X)
    w.case["how"] = how
    compare(w, a, b, "a fit after an earlier fit (%s)" % how)
    # and what is saved is the same too
    tmp = tempfile.mkdtemp(prefix="fvm-c28-")
    try:
        k, l = step(w, m, tmp)
        compare(w, a, look(l, d2.X), "a fit after an earlier fit (%s), then %s" % (how, k))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    w.count("reused by " + how)
    w.count("reused, frame %s then %s" % (d1.frame, d2.frame))
    if any(not nd["is_leaf"] for t in a["dump"]["trees"] for nd in t["nodes"]):
        w.nontrivial(w.idx, how, a["predict"])


def unfitted(w):
    """Pickling, copying and cloning a model that was never fitted."""
    tmp = tempfile.mkdtemp(prefix="fvm-c28-")
    try:
        d = Fit(w)
        w.case.update(params=repr(d.params))
        m = GradientBooster(**d.params)
        k = w.of("pickle", "copy", "deepcopy", "params")
        m2 = {"pickle": lambda: pickle.loads(pickle.dumps(m)), "copy": lambda: copy.copy(m), "deepcopy": lambda: copy.deepcopy(m),
              "params": lambda: GradientBooster(**m.get_params())}[k]()
        compare(w, look(m, None), look(m2, None), k + " of an unfitted model")
        d.fit(m)
        d.fit(m2)
        compare(w, look(m, d.X), look(m2, d.X), "fitting a %s of an unfitted model" % k)
        w.nontrivial(w.idx, k)
        w.count("unfitted " + k)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


STAGES = {"roundtrip": (roundtrip, 3000, 20000), "reuse": (reuse, 2000, 12000), "unfitted": (unfitted, 200, 1000)}
