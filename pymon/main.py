"""Monitors of the Python package.

  main.py <ID> --seed N --tier T --out FILE --known FILE [--only stage:idx] --pkg DIR
"""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings
from concurrent.futures.process import BrokenProcessPool


def run_case(job):
    pid, stage, idx, seed = job
    import core
    mod = __import__("m_" + pid.lower())
    w = core.W(stage, idx, seed)
    out = {"stage": stage, "idx": idx}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.STAGES[stage][0](w)
    except core.Fail as e:
        out["violation"] = {"stage": stage, "idx": idx, "kind": e.kind, "message": str(e)[:2000], "case": w.case}
    except BaseException as e:  # noqa: BLE001 (pyo3 panics are BaseException)
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if os.sep + "forust" + os.sep in f.filename] or type(e).__name__ == "PanicException"
        text = "".join(traceback.format_exception(e))[-1500:]
        if inside:
            out["violation"] = {"stage": stage, "idx": idx, "kind": "raised", "message": "%s: %s" % (type(e).__name__, e), "case": dict(w.case, traceback=text)}
        else:
            out["error"] = "%s:%s %s" % (stage, idx, text)
    out.update(observed=w.observed, evaluations=w.evaluations, digests=sorted(w.digests), sample=w.sample)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out", required=True)
    ap.add_argument("--known")
    ap.add_argument("--only")
    ap.add_argument("--pkg", required=True)
    a = ap.parse_args()
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[:0] = [a.pkg, here]
    sys.dont_write_bytecode = True
    os.environ.setdefault("RAYON_NUM_THREADS", "2")
    import forust
    if not os.path.abspath(forust.__file__).startswith(os.path.abspath(a.pkg)):
        print("wrong forust imported: " + forust.__file__)
        return 3
    mod = __import__("m_" + a.id.lower())
    jobs = []
    if a.only:
        st, ix = a.only.rsplit(":", 1)
        jobs = [(a.id, st, int(ix), a.seed)]
    else:
        for st, (fn, quick, thorough) in mod.STAGES.items():
            jobs += [(a.id, st, i, a.seed) for i in range(quick if a.tier == "quick" else thorough)]
    budget = 400 if a.tier == "quick" else 4000
    t0 = time.time()
    res = {"evaluations": 0, "distinct_nontrivial": 0, "observed": {}, "samples": [], "violations": [], "harness_errors": [], "rule": mod.RULE}
    digests = set()
    keep = os.environ.get("FVM_KEEP_GOING")
    done = 0
    for o in outcomes(jobs, list(sys.path), a):
        done += 1
        res["evaluations"] += o.get("evaluations", 0)
        digests.update(o.get("digests", []))
        for k, v in o.get("observed", {}).items():
            res["observed"][k] = res["observed"].get(k, 0) + v
        if o.get("sample") is not None and len(res["samples"]) < 4:
            res["samples"].append(o["sample"])
        if "violation" in o:
            res["violations"].append(o["violation"])
            if not keep:
                break
        if "error" in o:
            res["harness_errors"].append(o["error"])
            if len(res["harness_errors"]) > 3 and not keep:
                break
        if time.time() - t0 > budget:
            res["observed"]["stopped by the wall budget"] = 1
            break
    res["observed"]["python cases run"] = done
    res["distinct_nontrivial"] = len(digests)
    with open(a.out, "w") as f:
        json.dump(res, f, default=str)
    return 0


def outcomes(jobs, path, a):
    """Runs the jobs on worker processes; a worker that dies is traced to its case."""
    if len(jobs) == 1:
        init(path)
        yield run_case(jobs[0])
        return
    ctx = mp.get_context("spawn")
    ex = cf.ProcessPoolExecutor(8, mp_context=ctx, initializer=init, initargs=(path,))
    it = iter(jobs)
    flying = {}
    try:
        while True:
            while len(flying) < 24:
                j = next(it, None)
                if j is None:
                    break
                flying[ex.submit(run_case, j)] = j
            if not flying:
                return
            ready, _ = cf.wait(flying, return_when=cf.FIRST_COMPLETED)
            for f in ready:
                o = f.result()
                del flying[f]
                yield o
    except BrokenProcessPool:
        for f, j in list(flying.items()):
            if f.done() and f.exception() is None:
                continue
            only = "%s:%d" % (j[1], j[2])
            p = subprocess.run([sys.executable, os.path.abspath(__file__), a.id, "--seed", str(a.seed), "--tier", a.tier, "--out", a.out + ".one",
                                "--pkg", a.pkg, "--only", only], capture_output=True, text=True, timeout=600)
            if p.returncode in (-4, -6, -7, -8, -11):
                yield {"violation": {"stage": j[1], "idx": j[2], "kind": "process-died", "message": "the process was killed by signal %d: %s" % (-p.returncode, p.stderr[-500:]),
                                     "case": {"stage": j[1], "idx": j[2], "seed": a.seed}}}
                return
        yield {"error": "a worker process died and no case reproduces it"}
    finally:
        for p in list((ex._processes or {}).values()):
            p.terminate()
        ex.shutdown(wait=False, cancel_futures=True)


def init(path):
    sys.path[:] = path
    sys.dont_write_bytecode = True


if __name__ == "__main__":
    sys.exit(main())
