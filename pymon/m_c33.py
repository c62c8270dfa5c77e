"""The progress log tells what the training does."""
import logging
import math
import pickle
import re

import numpy as np
from core import gen_params, gen_x, gen_y
from forust import GradientBooster

RULE = "one case = one training with a log handler attached, its messages compared with the trees and the evaluation history it leaves; non-trivial = something was logged with evaluation data or early stopping; distinct by the logged text"

# The extension remembers levels, so they are set before anything is logged.
logging.getLogger().setLevel(logging.INFO)


class Tap(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.seen = []

    def emit(self, record):
        if record.name.split(".")[0].startswith("forust"):
            self.seen.append((record.levelno, record.getMessage()))


VALUES = re.compile(r"^Iteration (\d+) evaluation data values: (.*)$")
DONE = re.compile(r"^Completed iteration (\d+) of (\d+)$")
STOP = re.compile(r"^Stopping early at iteration (\d+) with metric value (\S+)$")
END = re.compile(r"^Finished training booster with (\d+) iterations\.$")


def close(text, v):
    try:
        t = float(text)
    except ValueError:
        return False
    if math.isnan(v) or math.isinf(v):
        return repr(t) == repr(float(v))
    return abs(t - v) <= 0.5001e-4 + abs(v) * 1e-12


def training(w):
    every = w.of(0, 0, 1, 1, 2, 3, 5, 7, 50)
    p = gen_params(w, 3, iterations=w.of(0, 1, 2, 3, 5, 8, 13, 21))
    n = w.int(2, 60)
    x = gen_x(w, n, 3)
    y = gen_y(w, x, p["objective_type"])
    sets = []
    for _ in range(w.of(0, 1, 1, 2, 3)):
        k = w.int(2, 30)
        ex = gen_x(w, k, 3)
        ey = gen_y(w, ex, p["objective_type"])
        sets.append((ex, ey, np.round(w.rng.random(k) + 0.1, 2)) if w.p(0.4) else (ex, ey))
    if sets:
        p["evaluation_metric"] = w.of("LogLoss", "RootMeanSquaredError", "AUC") if p["objective_type"] == "LogLoss" else "RootMeanSquaredError"
        if w.p(0.6):
            p["early_stopping_rounds"] = w.int(1, 4)
    w.case.update(params={k: repr(v) for k, v in p.items()}, every=every)
    how = w.of("constructor", "set_params", "pickle", "refit")
    if how == "set_params":
        m = GradientBooster(log_iterations=w.of(0, 1, 4), **p)
        m.set_params(log_iterations=every)
    else:
        m = GradientBooster(log_iterations=every, **p)
    if how == "pickle":
        m = pickle.loads(pickle.dumps(m))
    if how == "refit":
        m.fit(x[: max(2, n // 2)], gen_y(w, x[: max(2, n // 2)], p["objective_type"]))
    tap = Tap()
    root = logging.getLogger()
    root.addHandler(tap)
    try:
        m.fit(x, y, evaluation_data=sets or None)
        at_end = len(tap.seen)
        if m.number_of_trees:
            m.predict(x)
            m.text_dump()
        w.must(len(tap.seen) == at_end, "log-outside-training", lambda: "logged while predicting: %r" % (tap.seen[at_end:],))
    finally:
        root.removeHandler(tap)
    w.count("trainings via " + how)
    msgs = [t for _, t in tap.seen]
    w.case["log"] = msgs[:60]
    if every == 0:
        w.must(not msgs, "log-unasked", lambda: "log_iterations is 0 and %d messages came: %r" % (len(msgs), msgs[:3]))
        w.count("silent trainings")
        return
    trees = m.number_of_trees
    hist = m.get_evaluation_history() if sets else None
    hist = [] if hist is None else [list(r) for r in np.asarray(hist)]
    stopped = None
    best = m.best_iteration
    if sets and "early_stopping_rounds" in p and trees and best is not None and trees - 1 - best >= p["early_stopping_rounds"]:
        stopped = trees - 1
    want = [i for i in range(trees) if i % every == 0]
    values, done, stop, end, order = [], [], [], [], []
    for t in msgs:
        for rx, to in ((VALUES, values), (DONE, done), (STOP, stop), (END, end)):
            g = rx.match(t)
            if g:
                to.append(g.groups())
                order.append(int(g.group(1)))
                break
        else:
            w.must(False, "unknown-message", "message not understood: %r" % t)
    w.must(len(end) == 1 and msgs[-1:] and END.match(msgs[-1]) and int(end[0][0]) == trees, "end-message",
           lambda: "%d trees, the log ends with %r" % (trees, msgs[-1:]))
    w.must(order[:-1] == sorted(order[:-1]), "log-order", lambda: "iterations are logged as %r" % order)
    if sets:
        w.must([int(a) for a, _ in values] == want, "iterations-logged", lambda: "evaluation values logged for %r instead of %r" % ([a for a, _ in values], want))
        for a, t in values:
            row = hist[int(a)]
            got = t.split(", ")
            w.must(len(got) == len(row) and all(close(g, v) for g, v in zip(got, row)), "values-logged", lambda: "iteration %s: logged %r, history has %r" % (a, t, row))
            w.count("rows of history compared with the log")
    else:
        w.must(not values, "values-unasked", lambda: "evaluation values without evaluation data: %r" % (values,))
    w.must([int(a) for a, _ in done if int(a) != stopped] == [i for i in want if i != stopped], "completions-logged", lambda: "completions logged for %r, expected %r" % (done, want))
    w.must(all(int(b) == p["iterations"] for _, b in done), "completions-logged", lambda: "completions of %r, iterations are %d" % (done, p["iterations"]))
    if stopped is None:
        w.must(not stop, "stop-logged", lambda: "stopping logged: %r with %d trees, best %r" % (stop, trees, best))
    else:
        w.must(len(stop) == 1 and int(stop[0][0]) == stopped, "stop-logged", lambda: "stopping at %d is logged as %r" % (stopped, stop))
        v = hist[stopped][-1]
        w.must(repr(float(stop[0][1])) == repr(float(v)), "stop-logged", lambda: "stopped with metric %r, logged %r" % (v, stop))
        w.count("early stops compared with the log")
    w.count("logged trainings")
    if sets:
        w.nontrivial("\n".join(msgs))
    if w.idx < 2:
        w.sample = {"every": every, "log": msgs[:6]}


STAGES = {"training": (training, 2500, 25000)}
