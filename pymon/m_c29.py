"""The Python views of a model agree with its trees."""
import math

import numpy as np
import pandas as pd
from core import METHODS, beq, close, gen_names, gen_params, gen_weights, gen_x, gen_y, is_missing, jload, ref_leaves, ref_predict, same, used_trees, walk
from forust import GradientBooster

RULE = ("one case = one fitted model whose Python views (predict, leaf indices, contributions, partial dependence, importances, node lists, data frame, "
        "evaluation history) are recomputed from its JSON dump; non-trivial = a model with at least one split")

ALIASES = {"weight": "Weight", "average": "Average", "branch-difference": "BranchDifference", "branchdifference": "BranchDifference",
           "midpoint-difference": "MidpointDifference", "midpointdifference": "MidpointDifference", "mode-difference": "ModeDifference",
           "modedifference": "ModeDifference", "probability-change": "ProbabilityChange", "probabilitychange": "ProbabilityChange"}


def pd_ref(nodes, i, f, v, missing):
    n = nodes[i]
    if n["is_leaf"]:
        return n["weight_value"]
    l, r, m = n["left_child"], n["right_child"], n["missing_node"]
    if n["split_feature"] == f:
        return pd_ref(nodes, m if is_missing(v, missing) else l if v < n["split_value"] else r, f, v, missing)
    kids = [l, r] + ([m] if m not in (l, r) else [])
    tot = sum(nodes[k]["hessian_sum"] for k in kids)
    if not tot > 0:
        return math.nan
    return sum(nodes[k]["hessian_sum"] / tot * pd_ref(nodes, k, f, v, missing) for k in kids)


def weight_contrib(m, d, x):
    out = np.zeros((len(x), x.shape[1] + 1))
    trees = used_trees(m)
    for i, row in enumerate(x):
        for t in trees:
            path = walk(t["nodes"], row, m.missing)
            for a, b in zip(path, path[1:]):
                out[i, t["nodes"][a]["split_feature"]] += t["nodes"][b]["weight_value"] - t["nodes"][a]["weight_value"]
            out[i, -1] += t["nodes"][0]["weight_value"]
        out[i, -1] += d["base_score"]
    return out


def metric(kind, y, p, w):
    if kind == "RootMeanSquaredError":
        return math.sqrt(float(np.sum(w * (y - p) ** 2) / np.sum(w)))
    if kind == "LogLoss":
        # -y log s(p) - (1-y) log(1-s(p)), without cancellation
        l = np.maximum(p, 0) - p * y + np.log1p(np.exp(-np.abs(p)))
        return float(np.sum(w * l) / np.sum(w))
    pos, neg = y == 1, y == 0
    num = 0.0
    for pp, wp in zip(p[pos], w[pos]):
        num += wp * float(np.sum(w[neg] * ((p[neg] < pp) + 0.5 * (p[neg] == pp))))
    den = float(np.sum(w[pos]) * np.sum(w[neg]))
    return num / den if den > 0 else math.nan


def near_tie(leaves, pr):
    """Rows in different leaves whose predictions differ by rounding at most."""
    o = np.argsort(pr, kind="stable")
    return any(abs(pr[a] - pr[b]) < 1e-6 and not np.array_equal(leaves[a], leaves[b]) for a, b in zip(o, o[1:]))


def case(w):
    n, c = w.int(2, 60), w.int(1, 6)
    marker = w.of(np.nan, np.nan, -999.0)
    x = gen_x(w, n, c, marker)
    frame = w.p(0.6)
    names = gen_names(w, c) if frame else None
    p = gen_params(w, c, missing=marker)
    obj = p["objective_type"]
    y = gen_y(w, np.where(x == marker, np.nan, x), obj)
    wt = gen_weights(w, n)

    def wrap(a):
        return pd.DataFrame(a, columns=names) if frame else a

    evs = None
    if w.p(0.5):
        evs = []
        for _ in range(w.int(1, 3)):
            ne = w.int(2, 25)
            ex = gen_x(w, ne, c, marker)
            ey = gen_y(w, np.where(ex == marker, np.nan, ex), obj)
            evs.append((ex, ey, gen_weights(w, ne)))
        p["evaluation_metric"] = w.of("LogLoss", "AUC") if obj == "LogLoss" else "RootMeanSquaredError"
        if w.p(0.5):
            p["early_stopping_rounds"] = w.int(1, 4)
    w.case.update(params=repr(p), n=n, c=c, names=repr(names), x=x.tolist() if n * c < 200 else "see stage:idx")
    m = GradientBooster(**p)
    m.fit(wrap(x), y, wt, None if evs is None else [tuple(v for v in (wrap(e[0]), e[1], e[2]) if v is not None) for e in evs])
    d = jload(m.json_dump())
    trees = d["trees"]
    splits = sum(not nd["is_leaf"] for t in trees for nd in t["nodes"])
    finite = all(math.isfinite(nd["weight_value"]) for t in trees for nd in t["nodes"])
    label = (lambda j: names[j]) if frame else (lambda j: j)

    # ---- counters and names
    w.must(m.number_of_trees == len(trees), "trees", "number_of_trees is %d, the dump has %d" % (m.number_of_trees, len(trees)))
    w.must(m.best_iteration == d["best_iteration"] and m.get_best_iteration() == d["best_iteration"], "best-iteration", "best_iteration disagrees with the dump")
    w.must(m.prediction_iteration == d["prediction_iteration"], "prediction-iteration", "prediction_iteration disagrees with the dump")
    w.must(m.n_features_ == c, "n-features", "n_features_ is %r for %d columns" % (m.n_features_, c))
    w.must(m.base_score == d["base_score"], "base-score", "base_score attribute %r, model %r" % (m.base_score, d["base_score"]))
    if frame:
        w.must(list(m.feature_names_in_) == names, "names", "feature_names_in_ %r, trained on %r" % (m.feature_names_in_, names))
    else:
        w.must(not hasattr(m, "feature_names_in_"), "names", "feature names after a fit without names")

    # ---- evaluation history
    h = m.get_evaluation_history()
    if evs is None:
        w.must(h is None, "history", "evaluation history without evaluation data")
    else:
        w.must(h.shape == (len(trees), len(evs)), "history-shape", "history shape %r for %d trees and %d sets" % (h.shape, len(trees), len(evs)))
        keep = m.prediction_iteration
        for it in sorted({0, len(trees) - 1, w.int(0, len(trees) - 1)}):
            for k, (ex, ey, ew) in enumerate(evs):
                m.set_prediction_iteration(it + 1)
                pr = ref_predict(m, ex)
                ew_ = np.ones(len(ey)) if ew is None else ew
                v = metric(p["evaluation_metric"], ey, pr, ew_)
                if p["evaluation_metric"] == "AUC" and near_tie(ref_leaves(m, ex), pr):
                    continue  # the order of summation decides the tie
                if finite and math.isfinite(v) and np.max(np.abs(pr)) < 15:
                    w.must(close(h[it, k], v, 1e-3, 1e-4), "history-value", lambda: "history[%d, %d] is %r, the metric of the predictions is %r" % (it, k, h[it, k], v))
                    w.count("history entries")
        m.booster.prediction_iteration = keep
        w.must(m.prediction_iteration == keep, "prediction-iteration", "prediction_iteration setter")

    if w.p(0.4):
        it = w.of(0, 1, w.int(1, len(trees)), len(trees))
        m.set_prediction_iteration(it)
        w.must(m.prediction_iteration == it, "prediction-iteration", "set_prediction_iteration(%d) gives %r" % (it, m.prediction_iteration))
        w.case["prediction_iteration"] = it
        w.count("prediction iteration set")
    used = used_trees(m)

    # ---- row views
    q = np.vstack([x[: min(n, 15)], gen_x(w, 10, c, marker)])
    q = q[w.rng.permutation(len(q))[: w.int(1, len(q))]]
    pr = m.predict(wrap(q))
    w.must(pr.shape == (len(q),) and pr.dtype == np.float64, "predict-shape", "predict returned %s %s" % (pr.shape, pr.dtype))
    if finite:
        w.must(close(pr, ref_predict(m, q)), "predict", "predict differs from the trees of the dump")
    lv = m.predict_leaf_indices(wrap(q))
    w.must(lv.shape == (len(q), len(used)), "leaf-shape", lambda: "leaf indices of shape %r for %d rows and %d trees" % (lv.shape, len(q), len(used)))
    w.must(np.array_equal(lv, ref_leaves(m, q)), "leaf-indices", "leaf indices are not the leaves the rows fall into")
    w.count("rows looked at", len(q))
    use = sorted({nd["split_feature"] for t in used for nd in t["nodes"] if not nd["is_leaf"]})
    methods = METHODS + (["ProbabilityChange"] if obj == "LogLoss" else [])
    scale = 1.0 + float(np.max(np.abs(pr))) + sum(max(abs(nd["weight_value"]) for nd in t["nodes"]) for t in used)
    for mt in methods:
        ct = m.predict_contributions(wrap(q), method=mt)
        w.must(ct.shape == (len(q), c + 1), "contribution-shape", "%s contributions of shape %r for %d rows and %d features" % (mt, ct.shape, len(q), c))
        for j in range(c):
            if j not in use:
                w.must(bool(np.all(ct[:, j] == 0)), "unused-feature", "%s: column %d belongs to an unused feature but is not zero" % (mt, j))
        i = w.int(0, len(q) - 1)
        one = m.predict_contributions(wrap(q[i:i + 1]), method=mt)
        w.must(beq(one[0], ct[i]), "row-order", "%s: row %d of the batch is not the row's own contributions" % (mt, i))
        if not finite or not np.all(np.isfinite(ct)):
            continue
        if mt in ("Average", "Shapley", "Weight"):
            w.must(close(ct.sum(axis=1), pr, scale, 1e-5), "contribution-sum", lambda: "%s contributions sum to %r, prediction %r" % (mt, ct.sum(axis=1)[:3], pr[:3]))
        if mt == "ProbabilityChange":
            w.must(close(ct.sum(axis=1), 1 / (1 + np.exp(-pr)), 1.0, 1e-4), "contribution-sum", "ProbabilityChange contributions do not sum to the probability")
        if mt == "Weight":
            w.must(close(ct, weight_contrib(m, d, q), scale, 1e-6), "weight-contributions", "Weight contributions are not the changes of node weight along the path")
    w.must(beq(m.predict_contributions(wrap(q)), m.predict_contributions(wrap(q), method="Average")), "default-method", "the default contribution method is not Average")
    al = w.of(*[a for a in ALIASES if ALIASES[a] in methods])
    w.must(beq(m.predict_contributions(wrap(q), method=al), m.predict_contributions(wrap(q), method=ALIASES[al])), "method-alias", "method %r is not %r" % (al, ALIASES[al]))

    # ---- columns of a frame are checked
    if frame:
        bad = wrap(q).copy()
        k = w.of("rename", "drop", "extra", "swap") if c > 1 else w.of("rename", "extra")
        if k == "rename":
            cols = list(bad.columns)
            cols[w.int(0, c - 1)] = "never seen"
            bad.columns = cols
        elif k == "drop":
            bad = bad.iloc[:, 1:]
        elif k == "extra":
            bad["another"] = 1.0
        else:
            order = list(range(c))
            i, j = sorted(w.rng.permutation(c)[:2])
            order[i], order[j] = order[j], order[i]
            bad = bad.iloc[:, order]
        for what, call in (("predict", m.predict), ("predict_contributions", m.predict_contributions), ("predict_leaf_indices", m.predict_leaf_indices)):
            try:
                call(bad)
                ok = False
            except ValueError:
                ok = True
            w.must(ok, "columns-unchecked", "%s accepted a frame with columns %r, trained on %r" % (what, list(bad.columns), names))
        if evs is not None:
            m2 = GradientBooster(**p)
            try:
                m2.fit(wrap(x), y, wt, [(bad, np.zeros(len(bad)))])
                ok = False
            except ValueError:
                ok = True
            w.must(ok, "columns-unchecked", "fit accepted an evaluation frame with columns %r, trained on %r" % (list(bad.columns), names))
        w.count("mismatching frames refused")

    # ---- importance (all trees)
    st = {}
    for t in trees:
        for nd in t["nodes"]:
            if not nd["is_leaf"]:
                g = st.setdefault(nd["split_feature"], [0, 0.0, 0.0])
                g[0] += 1
                g[1] += nd["split_gain"]
                g[2] += nd["hessian_sum"]
    for mt, fn in (("Weight", lambda g: g[0]), ("Gain", lambda g: g[1] / g[0]), ("Cover", lambda g: g[2] / g[0]), ("TotalGain", lambda g: g[1]), ("TotalCover", lambda g: g[2])):
        ref = {label(j): fn(g) for j, g in st.items()}
        got = m.calculate_feature_importance(method=mt, normalize=False)
        w.must(set(got) == set(ref), "importance-features", lambda: "%s importance has features %r, the trees split on %r" % (mt, sorted(map(repr, got)), sorted(map(repr, ref))))
        w.must(all(close(got[k], ref[k], 1e-6, 1e-4) for k in ref), "importance", lambda: "%s importance %r, from the trees %r" % (mt, got, ref))
        tot = sum(ref.values())
        if tot > 0:
            nrm = m.calculate_feature_importance(method=mt, normalize=True)
            w.must(set(nrm) == set(ref) and all(close(nrm[k], ref[k] / tot, 1e-6, 1e-4) for k in ref), "importance-normalised", "%s normalised importance is not the share of the total" % mt)
            if mt == m.feature_importance_method:
                fi = m.feature_importances_
                w.must(fi.shape == (c,) and all(close(fi[j], ref.get(label(j), 0.0) / tot, 1e-6, 1e-4) for j in range(c)), "feature-importances",
                       lambda: "feature_importances_ (%s) is %r, from the trees %r" % (mt, fi, ref))

    # ---- structure views
    for mapped in (True, False):
        nl = m.get_node_lists(map_features_names=mapped)
        w.must([len(t) for t in nl] == [len(t["nodes"]) for t in trees], "node-lists", "node lists do not have the trees' nodes")
        for t, u in zip(nl, trees):
            for a, b in zip(t, u["nodes"]):
                for k in ("num", "weight_value", "hessian_sum", "depth", "split_value", "split_gain", "missing_node", "left_child", "right_child", "is_leaf"):
                    w.must(same(getattr(a, k), b[k]), "node-lists", lambda: "node list entry %s is %r, the dump says %r" % (k, getattr(a, k), b[k]))
                if not b["is_leaf"]:
                    w.must(a.split_feature == (label(b["split_feature"]) if mapped else b["split_feature"]), "node-feature", "node splits on %r, listed as %r" % (b["split_feature"], a.split_feature))
    df = m.trees_to_dataframe()
    rows = [(ti, nd) for ti, t in enumerate(trees) for nd in t["nodes"]]
    w.must(len(df) == len(rows), "tree-frame", "trees_to_dataframe has %d rows for %d nodes" % (len(df), len(rows)))
    for (ti, nd), r in zip(rows, df.to_dict("records")):
        ident = "%d-%d" % (ti, nd["num"])
        ok = r["Tree"] == ti and r["Node"] == nd["num"] and r["ID"] == ident and close(r["Cover"], nd["hessian_sum"])
        if nd["is_leaf"]:
            ok = ok and r["Feature"] == "Leaf" and close(r["Gain"], nd["weight_value"]) and pd.isna(r["Split"]) and pd.isna(r["Yes"]) and pd.isna(r["No"]) and pd.isna(r["Missing"])
        else:
            ok = (ok and r["Feature"] == str(label(nd["split_feature"])) and close(r["Split"], nd["split_value"]) and close(r["Gain"], nd["split_gain"])
                  and r["Yes"] == "%d-%d" % (ti, nd["left_child"]) and r["No"] == "%d-%d" % (ti, nd["right_child"]) and r["Missing"] == "%d-%d" % (ti, nd["missing_node"]))
        w.must(ok, "tree-frame", lambda: "trees_to_dataframe row %r does not describe node %r" % (r, nd))
    td = m.text_dump()
    w.must(len(td) == len(trees) and all(len([l for l in s.split("\n") if l.strip()]) == len(t["nodes"]) for s, t in zip(td, trees)), "text-dump", "text_dump does not list every node of every tree")

    # ---- partial dependence
    f = w.int(0, c - 1)
    col = q[:, f]
    vals = col[~(np.isnan(col) | (col == marker))]
    if len(vals):
        samples = w.of(None, None, w.int(1, 12))
        exm = w.of(True, False)
        bounds = w.of((0.2, 0.98), (0.0, 1.0), (0.1, 0.5))
        kw = dict(samples=samples, exclude_missing=exm, percentile_bounds=bounds)
        r = m.partial_dependence(wrap(q), f, **kw)
        grid = np.unique(vals) if samples is None else np.quantile(vals, np.linspace(bounds[0], bounds[1], num=samples))
        if not exm:
            grid = np.append([marker], grid)
        w.must(r.shape == (len(grid), 2) and close(r[:, 0], grid, 0, 1e-12), "pd-grid", lambda: "partial dependence is given at %r, asked for %r" % (r[:, 0], grid))
        for v, got in r:
            ref = d["base_score"] + sum(pd_ref(t["nodes"], 0, f, v, marker) for t in used)
            if math.isfinite(ref):
                w.must(close(got, ref, scale, 1e-5), "partial-dependence", lambda: "partial dependence of feature %d at %r is %r, from the trees %r" % (f, v, got, ref))
                w.count("partial dependence values")
        if frame and isinstance(names[f], str):
            w.must(same(m.partial_dependence(wrap(q), names[f], **kw).tolist(), r.tolist()), "pd-name", "partial dependence by name differs from by index")
    if splits:
        w.nontrivial(w.idx, pr.tobytes())
    w.count("models")
    if frame:
        w.count("named models")
    if w.idx < 3:
        w.sample = {"n": n, "c": c, "params": repr(p), "trees": len(trees), "splits": splits}


STAGES = {"views": (case, 4000, 30000)}
