"""Buffers of every layout under the armed unsafe-precondition checks of the extension,
and several Python threads using one model."""
import threading

import numpy as np
import m_c27
from core import beq, gen_params, gen_weights, gen_x, gen_y
from forust import GradientBooster

RULE = "python: one case = every input layout of C27, or one model used from several Python threads; the process must survive"


def layouts(w):
    try:
        m_c27.case(w)
    except BaseException as e:  # noqa: BLE001 what is wrong but defined is judged by C27
        if isinstance(e, KeyboardInterrupt):
            raise
        w.count("python: cases C27 judges wrong")


def threads(w):
    n, c = w.int(5, 200), w.int(1, 5)
    x = gen_x(w, n, c)
    p = gen_params(w, c, parallel=True)
    y = gen_y(w, x, p["objective_type"])
    m = GradientBooster(**p).fit(x, y, gen_weights(w, n))
    want = m.predict(x)
    bad = []

    def go(k):
        for _ in range(3):
            if k % 3 == 2:
                m2 = GradientBooster(**p).fit(x, y)
                m2.predict(x)
            m.predict_contributions(x, method="Shapley")
            m.predict_leaf_indices(x)
            if not beq(m.predict(x), want):
                bad.append(k)

    ts = [threading.Thread(target=go, args=(k,)) for k in range(4)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    w.must(not bad, "concurrent-use", "predictions change while other Python threads use the model")
    w.count("python: threads using one model", 4)
    w.nontrivial(want.tobytes())


STAGES = {"layouts": (layouts, 150, 1500), "threads": (threads, 100, 1000)}
