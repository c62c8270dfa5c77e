"""Models taken over from XGBoost answer as XGBoost does."""
import os
import pickle
import tempfile

import forust
import numpy as np
import pandas as pd
import xgboost as xgb
from core import gen_weights, gen_x, gen_y
from forust import GradientBooster

xgb.set_config(verbosity=0)

RULE = ("one case = one XGBoost model of random shape (objective, policy, method, names or none, estimator or plain booster, missing values) taken over by "
        "forust and compared with XGBoost's own answers on its training rows and on new ones; non-trivial = a model with a split, distinct by its dump")


def train(w, c):
    objective = w.of("reg:squarederror", "binary:logistic", "binary:logitraw")
    n = w.int(4, 120)
    kinds = ["bin", "small", "int", "f32", "f32", "const"]
    x = gen_x(w, n, c, kinds=kinds)
    y = gen_y(w, x, "SquaredLoss" if objective.startswith("reg") else "LogLoss")
    p = {"objective": objective, "learning_rate": w.of(0.1, 0.3, 1.0), "max_depth": w.of(1, 2, 3, 4, 6), "reg_lambda": w.of(0.1, 1.0, 3.0),
         "min_child_weight": w.of(0.1, 1.0), "tree_method": w.of("exact", "hist", "hist", "approx"), "n_jobs": 1, "random_state": w.int(0, 999)}
    if w.p(0.5):
        p["base_score"] = w.of(0.25, 0.5, 0.9, 0.495, 0.501, 1e-3, 0.999)
    if w.p(0.3):
        p["gamma"] = w.of(0.01, 0.5, 2.0)
    if w.p(0.4) and p["tree_method"] == "hist":
        p.update(grow_policy="lossguide", max_leaves=w.int(2, 16), max_depth=w.of(0, 6))
    if w.p(0.3):
        p["subsample"] = 0.7
    if w.p(0.3):
        p["colsample_bytree"] = 0.6
    if w.p(0.2):
        p["num_parallel_tree"] = 2
    if w.p(0.2):
        p["reg_alpha"] = 0.2
    if w.p(0.2):
        p["max_delta_step"] = 0.5
    p["n_estimators"] = w.int(1, 12)
    names = w.of(None, None, ["c%d" % i for i in w.rng.permutation(c)], ["f%d" % i for i in w.rng.permutation(c)], ["c %d" % i for i in range(c)])
    wt = gen_weights(w, n)
    frame = (lambda a: a) if names is None else (lambda a: pd.DataFrame(a, columns=names))
    how = w.of("estimator", "estimator", "booster")
    w.case.update(params=p, names=names, how=how, n=n, c=c)
    if how == "estimator":
        cls = xgb.XGBRegressor if objective.startswith("reg") else xgb.XGBClassifier
        kw = {} if objective.startswith("reg") else {"use_label_encoder": False}
        m = cls(**p, **kw)
        m.fit(frame(x), y if objective.startswith("reg") else y.astype(int), sample_weight=wt)
        booster = m.get_booster()
    else:
        q = dict(p)
        rounds = q.pop("n_estimators")
        q["nthread"] = q.pop("n_jobs")
        q["seed"] = q.pop("random_state")
        m = booster = xgb.train(q, xgb.DMatrix(frame(x), y, weight=wt), num_boost_round=rounds)
    return m, booster, x, frame, names, how


def taken_over(w):
    c = w.int(1, 6)
    m, booster, x, frame, names, how = train(w, c)
    dump = booster.get_dump(dump_format="json", with_stats=True)
    try:
        f = forust._from_xgboost_model(m)
    except ValueError as e:
        # Trees with gaps in their numbering (pruned ones) are refused.
        import json
        gaps = False
        for t in dump:
            ids, todo = [], [json.loads(t)]
            while todo:
                k = todo.pop()
                ids.append(k["nodeid"])
                todo += k.get("children", [])
            gaps = gaps or sorted(ids) != list(range(len(ids)))
        w.must(gaps, "refused", "taking over a model without gaps raises %r" % e)
        w.count("pruned models refused")
        return
    w.must(isinstance(f, GradientBooster), "not-a-booster", "got a %s" % type(f))
    w.count("taken over from %s" % how)
    w.count("with names" if names is not None else "without names")
    new = gen_x(w, w.int(1, 40), c, kinds=["bin", "small", "int", "f32", "f32"])
    splits = sum('"split"' in t for t in dump)
    for rows, what in ((x, "training rows"), (new, "new rows")):
        d = xgb.DMatrix(frame(rows))
        margin = booster.predict(d, output_margin=True).astype(float)
        scale = np.abs(margin).max() + 1.0
        for g in ((frame(rows), "frame"), (rows, "array")) if names is not None else ((rows, "array"),):
            got = f.predict(g[0])
            w.must(np.allclose(got, margin, rtol=0, atol=2e-5 * scale), "prediction",
                   lambda: "%s as %s: XGBoost gives %s, forust %s" % (what, g[1], margin[:8], got[:8]))
        leaf = booster.predict(d, pred_leaf=True).reshape(len(rows), -1)
        w.must(np.array_equal(f.predict_leaf_indices(rows), leaf), "leaf", "%s: other leaves than XGBoost" % what)
        sh = booster.predict(d, pred_contribs=True).astype(float)
        got = f.predict_contributions(rows, method="Shapley")
        w.must(np.allclose(got, sh, rtol=0, atol=1e-4 * (scale + np.abs(sh).max())), "shapley", lambda: "%s: XGBoost gives %s, forust %s" % (what, sh[:2], got[:2]))
        ap = booster.predict(d, pred_contribs=True, approx_contribs=True).astype(float)
        got = f.predict_contributions(rows, method="Average")
        w.must(np.allclose(got, ap, rtol=0, atol=1e-4 * (scale + np.abs(ap).max())), "average", lambda: "%s: XGBoost gives %s, forust %s" % (what, ap[:2], got[:2]))
        w.count("rows compared", len(rows))
    w.must(f.number_of_trees == len(dump), "tree-count", "%d trees of %d" % (f.number_of_trees, len(dump)))
    keys = names if names is not None else ["f%d" % i for i in range(c)]
    for fm, xm in (("Weight", "weight"), ("TotalGain", "total_gain"), ("TotalCover", "total_cover"), ("Gain", "gain"), ("Cover", "cover")):
        want = booster.get_score(importance_type=xm)
        got = f.calculate_feature_importance(method=fm, normalize=False)
        if names is None:
            got = {"f%d" % k: v for k, v in got.items()}
        w.must(set(want) == set(got), "importance-features", lambda: "%s: XGBoost names %s, forust %s" % (fm, sorted(want), sorted(got)))
        w.must(all(abs(want[k] - got[k]) <= 1e-4 * (abs(want[k]) + 1e-3) for k in want), "importance", lambda: "%s: XGBoost gives %s, forust %s" % (fm, want, got))
    imp = f.feature_importances_
    total = f.calculate_feature_importance(method=f.feature_importance_method, normalize=True)
    w.must(len(imp) == c, "importances-length", "%d importances for %d features" % (len(imp), c))
    for i, k in enumerate(keys):
        w.must(imp[i] == total.get(k if names is not None else i, 0.0), "importances-order", "feature_importances_ has %s for %r" % (imp[i], k))
    nodes = f.get_node_lists()
    w.must([len(t) for t in nodes] == [t.count('"nodeid"') for t in dump], "nodes", "other node counts than XGBoost's dump")
    # It lives on as any other model.
    before = f.predict(x)
    w.must(np.array_equal(pickle.loads(pickle.dumps(f)).predict(x), before), "pickle", "the pickled model predicts otherwise")
    with tempfile.TemporaryDirectory() as tmp:
        f.save_booster(os.path.join(tmp, "m.json"))
        g = GradientBooster.load_booster(os.path.join(tmp, "m.json"))
    w.must(np.array_equal(g.predict(x), before), "saved", "the saved model predicts otherwise")
    for k in ("feature_names_in_", "n_features_", "base_score"):
        w.must(getattr(g, k, None) == getattr(f, k, None), "saved-attributes", "%s of the saved model is %r, was %r" % (k, getattr(g, k, None), getattr(f, k, None)))
    w.must(getattr(f, "feature_names_in_", None) == names, "names", "feature names are %r" % (getattr(f, "feature_names_in_", None),))
    if splits:
        w.nontrivial(*dump)
        w.sample = {"names": names, "how": how, "trees": len(dump), "params": str(w.case["params"])}


STAGES = {"takeover": (taken_over, 1500, 15000)}
