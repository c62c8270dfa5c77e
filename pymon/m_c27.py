"""Layouts, dtypes and containers: the same numbers give the same model and results."""
import json
import os
import tempfile

import numpy as np
import pandas as pd
from core import METHODS, beq, gen_params, gen_weights, gen_x, gen_y, jload, same
from forust import GradientBooster

RULE = ("one case = one data set fitted once from float64 C-order arrays and again, and used for every prediction method, "
        "from the same numbers in other layouts, dtypes and containers; non-trivial = a model with at least one split and a variant that is not a plain copy")


# ---- the same numbers in another form -----------------------------------
def frame_variants(w, x):
    """name -> function producing the same numbers in another form."""
    n, c = x.shape
    out = {}

    def strided(k):
        big = w.rng.normal(size=(n * k, c))
        big[::k] = x
        return big[::k]

    def colstrided():
        big = w.rng.normal(size=(n, c * 3))
        big[:, 1::3] = x
        return big[:, 1::3]

    def offset():
        big = w.rng.normal(size=(n + 3, c + 2))
        big[2:2 + n, 1:1 + c] = x
        return big[2:2 + n, 1:1 + c]

    def readonly():
        y = x.copy()
        y.flags.writeable = False
        return y

    def fslice():
        big = np.asfortranarray(w.rng.normal(size=(n + 4, c)))
        big[1:1 + n] = x
        return big[1:1 + n]

    def unaligned():
        raw = np.zeros(n * c * 8 + 1, dtype="uint8")
        v = raw[1:].view("float64").reshape(n, c) if n * c else x.copy()
        v[...] = x
        return v

    def memmap():
        f = tempfile.NamedTemporaryFile(prefix="fvm-", delete=False)
        try:
            f.write(np.ascontiguousarray(x).tobytes())
            f.close()
            return np.memmap(f.name, dtype="float64", mode="r", shape=(n, c)) if n * c else x.copy()
        finally:
            os.unlink(f.name)

    out["F order"] = lambda: np.asfortranarray(x)
    out["rows strided"] = lambda: strided(w.int(2, 4))
    out["columns strided"] = colstrided
    out["offset window"] = offset
    out["F window"] = fslice
    out["rows reversed view"] = lambda: np.ascontiguousarray(x[::-1])[::-1]
    out["columns reversed view"] = lambda: np.ascontiguousarray(x[:, ::-1])[:, ::-1]
    out["transposed view"] = lambda: np.ascontiguousarray(x.T).T
    out["read-only"] = readonly
    out["unaligned"] = unaligned
    out["big-endian"] = lambda: x.astype(">f8")
    out["memmap"] = memmap
    out["object array"] = lambda: x.astype(object)
    with np.errstate(over="ignore", invalid="ignore"):
        if same(x.astype("float32").astype("float64").tolist(), x.tolist()):
            out["float32"] = lambda: x.astype("float32")
            out["float32 F"] = lambda: np.asfortranarray(x.astype("float32"))
        if same(x.astype("float16").astype("float64").tolist(), x.tolist()):
            out["float16"] = lambda: x.astype("float16")
        if not np.isnan(x).any() and (x == np.floor(x)).all():
            for dt in ("int64", "int32", "int16", "int8", "uint8", "uint16", "uint32"):
                if (np.abs(x) < 2**62).all() and (x.astype(dt).astype("float64") == x).all():
                    out[dt] = lambda dt=dt: x.astype(dt)
            if ((x == 0) | (x == 1)).all():
                out["bool"] = lambda: x.astype(bool)
    return out


def pandas_variants(w, x, names):
    n, c = x.shape
    out = {}

    def idx():
        return w.of(None, [int(v) for v in w.rng.permutation(n)], ["r%d" % i for i in range(n)], [7] * n, pd.date_range("2020-01-01", periods=n))

    def mixed():
        d = {}
        for j, nm in enumerate(names):
            col = x[:, j]
            opts = ["float64"]
            with np.errstate(over="ignore", invalid="ignore"):
                if same(col.astype("float32").astype("float64").tolist(), col.tolist()):
                    opts.append("float32")
                if not np.isnan(col).any() and (col == np.floor(col)).all() and (np.abs(col) < 100).all():
                    opts += ["int64", "int8", "int32", "Int64", "object"]
                    if ((col == 0) | (col == 1)).all():
                        opts.append("bool")
            d[nm] = pd.Series(col).astype(w.of(*opts))
        df = pd.DataFrame(d)
        i = idx()
        if i is not None:
            df.index = i
        return df

    def selected():
        df = pd.DataFrame(w.rng.normal(size=(n, c + 2)), columns=["__z0"] + list(names) + ["__z1"])
        for j, nm in enumerate(names):
            df[nm] = x[:, j]
        return df[list(names)]

    def rowsel():
        df = pd.DataFrame(np.vstack([x, x]), columns=names)
        return df.iloc[n:]

    out["frame"] = lambda: pd.DataFrame(x.copy(), columns=names, index=idx())
    out["frame F"] = lambda: pd.DataFrame(np.asfortranarray(x), columns=names, index=idx())
    out["frame mixed dtypes"] = mixed
    out["frame column subset"] = selected
    out["frame row subset"] = rowsel
    return out


def array_variants(w, v):
    n = v.shape[0]
    out = {}

    def strided(k):
        big = w.rng.normal(size=n * k)
        big[::k] = v
        return big[::k]

    def column():
        big = w.rng.normal(size=(n, 3))
        big[:, 1] = v
        return big[:, 1]

    def readonly():
        y = v.copy()
        y.flags.writeable = False
        return y

    def unaligned():
        raw = np.zeros(n * 8 + 1, dtype="uint8")
        u = raw[1:].view("float64")
        u[...] = v
        return u

    out["strided"] = lambda: strided(w.int(2, 3))
    out["column of a matrix"] = column
    out["reversed view"] = lambda: v[::-1].copy()[::-1]
    out["read-only"] = readonly
    out["object"] = lambda: v.astype(object)
    out["big-endian"] = lambda: v.astype(">f8")
    out["unaligned"] = unaligned
    out["series"] = lambda: pd.Series(v.copy(), index=w.of(None, [int(i) for i in w.rng.permutation(n)], [1] * n))
    out["series of a frame"] = lambda: pd.DataFrame(np.column_stack([v, v + 1]), columns=["a", "b"])["a"]
    with np.errstate(over="ignore", invalid="ignore"):
        if (v.astype("float32").astype("float64") == v).all():
            out["float32"] = lambda: v.astype("float32")
            out["float32 strided"] = lambda: strided(2).astype("float32")[::1]
        if (v == np.floor(v)).all() and (np.abs(v) < 100).all():
            for dt in ("int64", "int32", "int8"):
                out[dt] = lambda dt=dt: v.astype(dt)
            out["Int64 series"] = lambda: pd.Series(v).astype("Int64")
            if ((v == 0) | (v == 1)).all():
                out["bool"] = lambda: v.astype(bool)
                out["bool series"] = lambda: pd.Series(v.astype(bool))
    return out


def snap(o):
    """A comparable picture of a caller-owned object."""
    if isinstance(o, pd.DataFrame):
        return ("df", [repr(c) for c in o.columns], [str(t) for t in o.dtypes], repr(list(o.index)), [snap(o.iloc[:, j].to_numpy()) for j in range(o.shape[1])])
    if isinstance(o, pd.Series):
        return ("s", str(o.dtype), repr(list(o.index)), snap(o.to_numpy()))
    if isinstance(o, np.ndarray):
        body = repr(o.tolist()) if o.dtype == object else o.tobytes()
        return ("a", str(o.dtype), o.shape, o.strides, o.flags.writeable, body)
    if isinstance(o, (list, tuple)):
        return [snap(v) for v in o]
    return repr(o)


def unchanged(w, what, o, before):
    w.must(same(snap(o), before), "input-modified", "%s was modified by the call" % what)


def picture(m):
    d = jload(m.json_dump())
    return {"trees": d["trees"], "base_score": d["base_score"], "best_iteration": d.get("best_iteration"), "prediction_iteration": d.get("prediction_iteration"),
            "history": d.get("evaluation_history")}


def case(w):
    n, c = w.int(2, 60), w.int(1, 6)
    marker = w.of(np.nan, np.nan, -999.0)
    kinds = w.of(["bin"], ["bin", "small"], ["small", "int"], ["f32"], None, None)
    x = gen_x(w, n, c, marker, kinds, pmiss=0.0 if kinds and w.p(0.5) else None)
    params = gen_params(w, c, missing=marker)
    if w.p(0.3):
        params["monotone_constraints"] = {int(j): w.of(-1, 0, 1) for j in w.rng.permutation(c)[: w.int(0, c)]}
    if w.p(0.3):
        params["terminate_missing_features"] = {int(j) for j in w.rng.permutation(c)[: w.int(0, c)]}
    y = gen_y(w, np.where(x == marker, np.nan, x), params["objective_type"])
    wt = gen_weights(w, n)
    ev = None
    if w.p(0.4):
        ne = w.int(1, 20)
        ex = gen_x(w, ne, c, marker, kinds, pmiss=0.0 if not np.isnan(x).any() else None)
        ey = gen_y(w, np.where(ex == marker, np.nan, ex), params["objective_type"])
        ev = (ex, ey, gen_weights(w, ne))
        if w.p(0.5):
            params["early_stopping_rounds"] = w.int(1, 3)
        params["evaluation_metric"] = w.of("LogLoss", "AUC") if params["objective_type"] == "LogLoss" else "RootMeanSquaredError"
    w.case.update(params=repr(params), n=n, c=c, x=x.tolist() if n * c < 200 else "see stage:idx")

    def evd(e):
        return None if e is None else [tuple(v for v in e if v is not None)]

    base = GradientBooster(**params)
    base.fit(x.copy(), y.copy(), None if wt is None else wt.copy(), evd(ev))
    ref = picture(base)
    xp = np.vstack([x[: min(n, 20)], gen_x(w, 10, c, marker, kinds, pmiss=0.0 if not np.isnan(x).any() else None)])
    base_out = {"predict": base.predict(xp), "leaf": base.predict_leaf_indices(xp)}
    methods = METHODS + (["ProbabilityChange"] if params["objective_type"] == "LogLoss" else [])
    for mt in methods:
        base_out[mt] = base.predict_contributions(xp, method=mt)
    splits = sum(not nd["is_leaf"] for t in ref["trees"] for nd in t["nodes"])

    # no weights means weights of one
    m1 = GradientBooster(**params)
    if wt is None:
        m1.fit(x, y, np.ones(n), evd(ev))
        w.must(same(picture(m1), ref), "weights-of-one", "fitting without sample_weight differs from fitting with weights of one")
    if ev is not None and ev[2] is None:
        m1.fit(x, y, wt, [(ev[0], ev[1], np.ones(len(ev[1])))])
        w.must(same(picture(m1), ref), "weights-of-one", "an evaluation set without weights differs from one with weights of one")

    names = ["c%d" % j for j in range(c)] if w.p(0.5) else list(range(c))
    fv = frame_variants(w, x)
    pv = pandas_variants(w, x, names)
    for _ in range(4):
        pandas = w.p(0.4)
        k = w.of(*(pv if pandas else fv))
        vx = (pv if pandas else fv)[k]()
        ky = w.of("plain", *array_variants(w, y))
        vy = y.copy() if ky == "plain" else array_variants(w, y)[ky]()
        kw = "none" if wt is None else w.of("plain", *array_variants(w, wt))
        vw = None if wt is None else (wt.copy() if kw == "plain" else array_variants(w, wt)[kw]())
        vev = None
        ke = "none"
        if ev is not None:
            evs = frame_variants(w, ev[0]) if not pandas else pandas_variants(w, ev[0], names)
            ke = w.of(*evs)
            vev = [tuple(v for v in (evs[ke](), w.of(*array_variants(w, ev[1]).values())(),
                                     None if ev[2] is None else w.of(*array_variants(w, ev[2]).values())()) if v is not None)]
        p2 = dict(params)
        if pandas:
            if "monotone_constraints" in p2:
                p2["monotone_constraints"] = {names[j]: v for j, v in p2["monotone_constraints"].items()}
            if "terminate_missing_features" in p2:
                p2["terminate_missing_features"] = [names[j] for j in p2["terminate_missing_features"]]
        label = "X %s, y %s, weights %s, evaluation %s" % (k, ky, kw, ke)
        w.case["variant"] = label
        before = [snap(o) for o in (vx, vy, vw, vev)]
        pbefore = repr(p2)
        m = GradientBooster(**p2)
        r = m.fit(vx, vy, vw, vev)
        w.must(r is m, "fit-returns-self", "fit did not return the model")
        for what, o, b in zip(("X", "y", "sample_weight", "evaluation_data"), (vx, vy, vw, vev), before):
            unchanged(w, what + " (%s)" % label, o, b)
        w.must(repr(p2) == pbefore, "input-modified", "a parameter object was modified by fit")
        w.must(same(picture(m), ref), "layout-changes-model", lambda: "the model fitted from %s differs from the one fitted from float64 C-order arrays" % label)
        w.count("fit from %s" % k)
        w.count("y as %s" % ky)
        if wt is not None:
            w.count("weights as %s" % kw)
        if splits:
            w.nontrivial(w.idx, label)
        # predictions from the base model and this one in yet another layout
        pfv, ppv = frame_variants(w, xp), pandas_variants(w, xp, names)
        for who, mm in (("base", base), ("variant", m)):
            pk = w.of(*(ppv if w.p(0.4) else pfv))
            vp = (ppv.get(pk) or pfv[pk])()
            b = snap(vp)
            par = w.of(None, True, False)
            kwargs = {} if par is None else {"parallel": par}
            w.must(beq(mm.predict(vp, **kwargs), base_out["predict"]), "layout-changes-predict", "predict of %s differs from float64 C order" % pk)
            w.must(beq(mm.predict_leaf_indices(vp), base_out["leaf"]), "layout-changes-leaves", "predict_leaf_indices of %s differs from float64 C order" % pk)
            for mt in methods:
                w.must(beq(mm.predict_contributions(vp, method=mt, **kwargs), base_out[mt]), "layout-changes-contributions", "predict_contributions(%s) of %s differs from float64 C order" % (mt, pk))
            unchanged(w, "X of predict (%s)" % pk, vp, b)
            w.count("predicted from %s" % pk)
            if splits:
                w.nontrivial(w.idx, who, pk)
    # results belong to the caller
    r = base.predict(xp)
    r[...] = 12345.0
    w.must(beq(base.predict(xp), base_out["predict"]), "result-aliases-model", "writing to a returned array changed later predictions")
    if ev is not None:
        h = base.get_evaluation_history()
        h0 = h.copy()
        if h.flags.writeable:
            h[...] = -1.0
        w.must(beq(base.get_evaluation_history(), h0), "result-aliases-model", "writing to the returned evaluation history changed the model")
    if w.idx < 3:
        w.sample = {"n": n, "c": c, "params": repr(params), "splits": splits, "last variant": w.case.get("variant")}


STAGES = {"layouts": (case, 1200, 12000)}
