"""What the Python package refuses, it refuses with an exception and without a trace."""
import numpy as np
import pandas as pd
from core import same
from forust import GradientBooster
from m_c28 import Fit, compare, look

RULE = ("one case = a fitted (or new) Python model given an invalid value in one argument of fit, set_params or the constructor, "
        "with data of another shape or other names; non-trivial = a fitted model with a split survived a refusal")

BAD = {"learning_rate": (-0.1, np.nan, -1e-30), "l1": (-1.0, np.nan), "l2": (-1.0, np.nan, -np.inf), "gamma": (-0.5, np.nan),
       "max_delta_step": (-0.5, np.nan), "min_leaf_weight": (-1.0, np.nan), "subsample": (-0.5, np.nan), "top_rate": (-0.1, np.nan),
       "other_rate": (-0.1, np.nan), "colsample_bytree": (-0.1, np.nan), "objective_type": ("nope", "logloss", ""),
       "grow_policy": ("nope",), "evaluation_metric": ("nope",), "missing_node_treatment": ("nope",),
       "iterations": (-1,), "max_depth": (-1,), "nbins": (-1, 70000)}


def refused(w, f, what):
    try:
        f()
    except (ValueError, TypeError, KeyError, OverflowError, IndexError) as e:
        w.must(True, "", "")
        return type(e).__name__
    except BaseException as e:  # noqa: BLE001
        w.must(False, "panicked", "%s ended in %s: %s" % (what, type(e).__name__, e))
    w.must(False, "not-refused", "%s was accepted" % what)


def spoil(w, d):
    """The arguments of a fit with one invalid value, and what is wrong with them."""
    X, y, wt, ev = d.X, np.array(d.y, dtype="float64"), d.wt, d.ev
    kinds = ["y nan", "weight nan", "weight negative", "eval y nan", "eval weight nan", "eval weight negative", "text"]
    if d.frame:
        kinds += ["eval names", "eval names", "unknown constraint"]
    k = w.of(*kinds)
    i = w.of(0, d.n - 1, w.int(0, d.n - 1))
    if k == "y nan":
        y = y.copy()
        y[i] = np.nan
    elif k.startswith("weight"):
        wt = np.ones(d.n) if wt is None else np.array(wt, dtype="float64")
        wt[i] = np.nan if k.endswith("nan") else w.of(-1.0, -1e-300, -np.inf)
    elif k.startswith("eval"):
        ev = list(ev or [])
        xe, ye, we = X.copy(), y.copy(), np.ones(d.n)
        if k == "eval y nan":
            ye[i] = np.nan
        elif k == "eval weight nan":
            we[i] = np.nan
        elif k == "eval weight negative":
            we[i] = w.of(-1.0, -1e-300)
        else:
            names = list(xe.columns)
            if d.c > 1 and w.p(0.5):
                xe = xe[names[1:] + names[:1]]
            else:
                xe.columns = ["other %d" % q for q in range(d.c)]
        ev.insert(w.of(0, len(ev)), (xe, ye, we))
    elif k == "text":
        X = pd.DataFrame(np.array(X, dtype="float64").astype(object), columns=d.names)
        X.iloc[i, w.int(0, d.c - 1)] = "not a number"
        if not d.frame:
            X = X.to_numpy()
    return k, X, y, wt, ev


def fits(w):
    """A fit that is refused: the model, fitted before or not, is as if nothing had happened."""
    d1 = Fit(w)
    d2 = d1 if w.p(0.2) else Fit(w, objective=d1.objective, marker=d1.params["missing"])
    p = dict(d1.params)
    w.case.update(params=repr(p), names1=repr(d1.names), names2=repr(d2.names), frames=[d1.frame, d2.frame])
    m, twin = GradientBooster(**p), GradientBooster(**p)
    was = w.p(0.75)
    if was:
        d1.fit(m)
        d1.fit(twin)
    # constraints that go with the next data (the fitted trees stay as they are)
    if d2 is not d1:
        for q in ("monotone_constraints", "terminate_missing_features"):
            v = d2.params.get(q, {} if q[0] == "m" else set())
            setattr(m, q, v)
            setattr(twin, q, v)
    k, X, y, wt, ev = spoil(w, d2)
    if k == "unknown constraint":
        for o in (m, twin):
            if w.idx % 2:
                o.monotone_constraints = {"no such column": 1, **o.monotone_constraints}
            else:
                o.terminate_missing_features = set(o.terminate_missing_features) | {"no such column"}
    w.case.update(kind=k, fitted=was)
    before = look(m, d1.X if was else None)
    how = refused(w, lambda: m.fit(X, y, wt, ev), "a fit with " + k)
    after = look(m, d1.X if was else None)
    compare(w, before, after, "a fit refused for " + k)
    w.must(sorted(vars(m)) == sorted(vars(twin)), "attributes-differ",
           lambda: "after a fit refused for %s the model has the attributes %s" % (k, sorted(set(vars(m)) ^ set(vars(twin)))))
    w.count("refused %s: %s" % (k, how))
    w.count("refused, frame %s then %s" % (d1.frame if was else None, d2.frame))
    # and it can be used as before
    if k == "unknown constraint":
        for o in (m, twin):
            o.monotone_constraints, o.terminate_missing_features = {}, set()
    d2.fit(m)
    d2.fit(twin)
    compare(w, look(twin, d2.X), look(m, d2.X), "a fit after one refused for " + k)
    if was and any(not nd["is_leaf"] for t in before["dump"]["trees"] for nd in t["nodes"]):
        w.nontrivial(w.idx, k, before["predict"])


def params(w):
    """Refused parameters, at construction and through set_params."""
    q = w.of(*BAD)
    v = w.of(*BAD[q])
    w.case.update(parameter=q, value=repr(v))
    how = refused(w, lambda: GradientBooster(**{q: v}), "GradientBooster(%s=%r)" % (q, v))
    d = Fit(w)
    m = GradientBooster(**d.params)
    d.fit(m)
    before, attrs = look(m, d.X), sorted(vars(m))
    extra = {w.of("iterations", "max_depth", "nbins"): w.int(3, 7), "l2": 2.5}
    extra[q] = v
    keys = [str(z) for z in w.rng.permutation(list(extra))]
    refused(w, lambda: m.set_params(**{z: extra[z] for z in keys}), "set_params(%s=%r)" % (q, v))
    compare(w, before, look(m, d.X), "set_params refused for %s=%r" % (q, v))
    w.must(sorted(vars(m)) == attrs, "attributes-differ", "set_params refused for %s=%r changed the attributes" % (q, v))
    for z in m.get_params():
        w.must(same(m.get_params()[z], getattr(m, z)), "parameter-lost", z)
    w.count("refused parameter %s: %s" % (q, how))
    w.nontrivial(w.idx, q, repr(v), before["predict"])


STAGES = {"py-fits": (fits, 4000, 60000), "py-params": (params, 1000, 10000)}
