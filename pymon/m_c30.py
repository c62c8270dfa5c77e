"""Metadata and the serialisers give back what was put in."""
import os
import pickle
import shutil
import tempfile

import numpy as np
from core import beq, gen_params, gen_x, gen_y, same
from forust import GradientBooster
from forust.serialize import NumpySerializer, ObjectSerializer, ScalerSerializer

RULE = "one case = a batch of texts stored as metadata through a random history of inserts, fits and reloads, or of objects passed through the serialisers; non-trivial = at least one non-ASCII, quoted or empty text or non-vector array"

ALPH = ["a", "Z", "0", " ", "'", '"', "\\", "\n", "\t", "\r", "\0", "\x1b", "é", "ß", "日", "😀", "{", "}", "[", "]", ":", ",", "null", "\u2028", "\ufeff", "\x7f", "%s", "\\n", "\\u0041", "'''", "#", "\u0301"]


def text(w, lo=0, hi=12):
    return "".join(ALPH[int(i)] for i in w.rng.integers(0, len(ALPH), w.int(lo, hi)))


def metadata(w):
    tmp = tempfile.mkdtemp(prefix="fvm-c30-")
    try:
        m = GradientBooster(**gen_params(w, 2, objective_type="SquaredLoss"))
        want = {}
        log = []
        w.case["history"] = log
        for _ in range(w.int(2, 12)):
            k = w.of("insert", "insert", "insert", "overwrite", "save", "pickle", "fit", "predict")
            if k == "overwrite" and want:
                key = w.of(*want)
                want[key] = text(w)
                m.insert_metadata(key, want[key])
            elif k in ("insert", "overwrite"):
                key = text(w)
                if key in ("feature_names_in_", "n_features_", "feature_importance_method"):
                    continue
                want[key] = text(w, 0, 40)
                m.insert_metadata(key, want[key])
                log.append((k, key, want[key]))
            elif k == "save":
                path = os.path.join(tmp, "m.json")
                m.save_booster(path)
                m = GradientBooster.load_booster(path)
            elif k == "pickle":
                m = pickle.loads(pickle.dumps(m))
            elif k == "fit":
                x = gen_x(w, w.int(2, 20), 2, m.missing)
                m.fit(x, gen_y(w, x, "SquaredLoss"))
            elif k == "predict" and m.number_of_trees:
                m.predict(gen_x(w, 3, 2, m.missing))
            log.append(k)
            w.count("metadata step " + k)
            for key, v in want.items():
                got = m.get_metadata(key)
                w.must(got == v, "metadata-changed", "metadata %r was set to %r and is %r" % (key, v, got))
                w.count("metadata read back")
            absent = text(w, 1, 8)
            if absent not in want and absent not in ("feature_names_in_", "n_features_", "feature_importance_method"):
                try:
                    v = m.get_metadata(absent)
                    w.must(False, "missing-key", "metadata %r was never set but is %r" % (absent, v))
                except KeyError:
                    w.must(True, "", "")
        if any(not s.isascii() or "'" in s or '"' in s or "\\" in s or not s for kv in want.items() for s in kv):
            w.nontrivial(sorted(want.items()))
        if w.idx < 2:
            w.sample = {"metadata": sorted(want.items())[:3], "steps": [str(s) for s in log][:8]}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def scalar(w):
    return w.of(lambda: w.int(-10**6, 10**6), lambda: int(w.rng.integers(-2**62, 2**62)) * w.of(1, 10**20), lambda: float(w.rng.normal() * 10.0 ** w.int(-300, 300)), lambda: w.of(0.0, -0.0, 0.1, 1e308, 5e-324, 1e16),
                lambda: text(w), lambda: text(w), lambda: text(w, 1, 1))()


def same_obj(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


def scalars(w):
    s = ScalerSerializer()
    for _ in range(20):
        v = scalar(w)
        w.case["value"] = repr(v)
        t = s.serialize(v)
        w.must(isinstance(t, str), "not-text", "ScalerSerializer gives a %s" % type(t))
        try:
            got = s.deserialize(t)
        except Exception as e:  # noqa: BLE001
            w.must(False, "scalar-lost", "ScalerSerializer: %r does not come back: %r" % (v, e))
        w.must(same_obj(got, v), "scalar-changed", "ScalerSerializer: %r comes back as %r" % (v, got))
        w.count("scalars of type " + type(v).__name__)
        if isinstance(v, str):
            w.nontrivial(v)


def objects(w):
    s = ObjectSerializer()

    def js(v):  # what JSON can hold: any scalar, lists, dicts with text keys
        return v

    for _ in range(10):
        k = w.of("scalar", "list", "dict", "nested")
        if k == "scalar":
            v = scalar(w)
        elif k == "list":
            v = [scalar(w) for _ in range(w.int(0, 6))]
        elif k == "dict":
            v = {text(w): scalar(w) for _ in range(w.int(0, 5))}
        else:
            v = {text(w): [scalar(w) for _ in range(w.int(0, 3))] for _ in range(w.int(0, 3))}
        w.case["value"] = repr(v)
        got = s.deserialize(s.serialize(js(v)))
        w.must(same_obj(got, v), "object-changed", "ObjectSerializer: %r comes back as %r" % (v, got))
        w.count("objects: " + k)
        if k != "scalar" and v:
            w.nontrivial(v)


def arrays(w):
    s = NumpySerializer()
    for _ in range(10):
        nd = w.int(0, 4)
        shape = tuple(w.int(0, 4) if w.p(0.15) else w.int(1, 4) for _ in range(nd))
        dt = w.of("float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "bool")
        size = int(np.prod(shape))
        if dt.startswith("float"):
            with np.errstate(over="ignore"):
                a = (w.rng.normal(size=size) * 10.0 ** w.rng.integers(-6, 6, size)).astype(dt)
            if size and w.p(0.3):
                a[w.int(0, size - 1)] = w.of(np.nan, np.inf, -np.inf, -0.0)
        elif dt == "bool":
            a = w.rng.integers(0, 2, size).astype(bool)
        else:
            i = np.iinfo(dt)
            a = w.rng.integers(i.min, i.max, size, dtype=dt, endpoint=True)
        a = a.reshape(shape)
        k = w.of("C", "F", "strided", "reversed")
        if k == "F":
            a = np.asfortranarray(a)
        elif nd and k == "strided":
            a = np.repeat(a, 2, axis=0)[::2]
        elif nd and k == "reversed":
            a = a[::-1]
        w.case["value"] = "%s %s %s %r" % (dt, shape, k, a.tolist())
        before = a.tobytes()
        got = s.deserialize(s.serialize(a))
        w.must(isinstance(got, np.ndarray), "array-changed", "NumpySerializer gives a %s" % type(got))
        w.must(got.dtype == a.dtype, "array-dtype", "NumpySerializer: dtype %s comes back as %s" % (a.dtype, got.dtype))
        w.must(got.shape == a.shape, "array-shape", "NumpySerializer: shape %s comes back as %s" % (a.shape, got.shape))
        w.must(same(got.tolist(), a.tolist()) and np.array_equal(np.signbit(got) if dt.startswith("float") else got, np.signbit(a) if dt.startswith("float") else a, equal_nan=False), "array-changed",
               lambda: "NumpySerializer: %r comes back as %r" % (a, got))
        w.must(a.tobytes() == before, "input-modified", "NumpySerializer changed its input")
        w.count("arrays of dtype " + dt)
        w.count("arrays of %d dimensions" % nd)
        if nd != 1:
            w.nontrivial(w.case["value"])


STAGES = {"metadata": (metadata, 3000, 20000), "scalars": (scalars, 600, 6000), "objects": (objects, 600, 6000), "arrays": (arrays, 1000, 10000)}
