"""What each check runs."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check as drv  # noqa: E402

FATAL = {4, 6, 7, 8, 11}  # ILL ABRT BUS FPE SEGV


def rust(bin_="fvm", tag="", optional=False):
    """The monitor binary, optimised, with debug assertions and overflow checks."""

    def go(a, tier):
        if a.only and a.only.startswith("py-"):
            return {}
        rc, out = drv.build(bin_)
        if rc != 0:
            drv.log(out[-3000:])
            if optional:
                return {"observed": {"direct monitor of internal parts skipped (internals changed)": 1}}
            return {"problems": ["the monitor does not build against /repo"]}
        binary = os.path.join(drv.BUILD, "main", "debug", bin_)
        timeout = 700 if tier == "quick" else 6000
        res, st = drv.run_monitor(binary, a.id, a.seed, tier, a.only, timeout, tag=tag)
        if st == "ok":
            res["problems"] = res.get("harness_errors", [])
            return res
        if st == "timeout":
            return {"problems": ["monitor ran out of its wall budget"]}
        if st == "signal" and res["signal"] in FATAL:
            # find the case that kills the process
            for only in res["inflight"]:
                r2, s2 = drv.run_monitor(binary, a.id, a.seed, tier, only, 300, tag=tag)
                if s2 == "signal" and r2["signal"] in FATAL:
                    stage, idx = only.rsplit(":", 1)
                    return {"violations": [{"stage": stage, "idx": int(idx), "kind": "process-died",
                                            "message": "the process was killed by signal %d: %s" % (r2["signal"], r2["stderr"][-500:]),
                                            "case": {"stage": stage, "idx": int(idx), "seed": a.seed}}]}
            return {"violations": [{"stage": "?", "idx": -1, "kind": "process-died",
                                    "message": "the process was killed by signal %d with %s in flight: %s" % (res["signal"], res["inflight"], res["stderr"][-500:]),
                                    "case": {"inflight": res["inflight"], "seed": a.seed}}]}
        return {"problems": ["monitor ended with %s: %s" % (st, str(res)[:1500])]}

    return go


def report_of(text, marks):
    """The sanitizer's own words, if it has said anything."""
    for m in marks:
        i = text.find(m)
        if i >= 0:
            return text[i:i + 1800]
    return None


def sanitizer(kind):
    marks = {"asan": ["ERROR: AddressSanitizer", "ERROR: LeakSanitizer"], "tsan": ["WARNING: ThreadSanitizer"]}[kind]

    def go(a, tier):
        if a.only and not a.only.startswith(kind + "/"):
            return {}
        only = a.only.split("/", 1)[1] if a.only else None
        rc, out = drv.build_san(kind)
        if rc != 0:
            drv.log(out[-3000:])
            return {"problems": ["the monitor does not build under " + kind]}
        binary = os.path.join(drv.BUILD, kind, drv.TARGET, "debug", "fvm")
        env = dict(drv.SAN[kind]["env"])
        res, st = drv.run_monitor(binary, a.id, a.seed, tier, only, 400 if tier == "quick" else 4000, tag="." + kind, extra_env=env)
        if st == "ok":
            res["problems"] = res.get("harness_errors", [])
            for v in res.get("violations", []):
                v["stage"] = kind + "/" + str(v.get("stage"))
            res["observed"] = {"%s: %s" % (kind, k): v for k, v in res.get("observed", {}).items()}
            return res
        if st == "timeout":
            return {"problems": ["%s monitor ran out of its wall budget" % kind]}
        text = res.get("full", res.get("stderr", ""))
        rep = report_of(text, marks) or report_of(text, ["unsafe precondition"])
        if rep or (st == "signal" and res["signal"] in FATAL):
            at = (res["inflight"] or ["?:-1"])[0].rsplit(":", 1)
            return {"violations": [{"stage": kind + "/" + at[0], "idx": int(at[1]), "kind": kind + "-report", "message": (rep or text[-600:])[:1800],
                                    "case": {"inflight": res["inflight"], "seed": a.seed}}]}
        if "FATAL: ThreadSanitizer" in text or "Shadow memory range interleaves" in text:
            return {"observed": {kind + " cannot run in this environment": 1}}
        return {"problems": ["%s monitor ended with %s: %s" % (kind, st, str(res)[:1500])]}

    return go


def miri(a, tier):
    """The same library calls on tiny cases in the undefined-behaviour interpreter."""
    import subprocess
    import time
    if a.only and not a.only.startswith("miri/"):
        return {}
    rc, out = drv.build_miri()
    if rc != 0:
        drv.log(out[-3000:])
        return {"problems": ["the miri workload does not build"]}
    jobs = [int(a.only.rsplit(":", 1)[1])] if a.only else list(range(24 if tier == "quick" else 400))
    deadline = time.time() + (200 if tier == "quick" else 2400)
    running, done, obs = [], 0, {"miri: cases": 0, "miri: splits executed": 0, "miri: cases with parallel execution": 0}
    res = {"evaluations": 0, "distinct_nontrivial": 0, "observed": obs, "rule": "miri: one tiny case per process, non-trivial when a split was made", "violations": []}
    while (jobs or running) and not res["violations"]:
        while jobs and len(running) < 8 and time.time() < deadline:
            i = jobs.pop(0)
            e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", **drv.MIRI_ENV)
            e["MIRIFLAGS"] += " -Zmiri-seed=%d" % (a.seed * 1000 + i)
            f = open(os.path.join(drv.EVID, "miri.%d.log" % i), "w+")
            running.append((i, f, subprocess.Popen(drv.miri_cmd(a.seed, i, i + 1), env=e, stdout=f, stderr=subprocess.STDOUT)))
        if time.time() >= deadline:
            jobs = []
        for r in list(running):
            i, f, p = r
            if p.poll() is None:
                if time.time() > deadline + 60:
                    p.kill()
                continue
            running.remove(r)
            f.seek(0)
            text = f.read()
            f.close()
            os.remove(f.name)
            if p.returncode == 0:
                obs["miri: cases"] += 1
                obs["miri: cases with parallel execution"] += i % 4 == 0
                n = int(text.rsplit("splits=", 1)[1].split()[0])
                obs["miri: splits executed"] += n
                res["evaluations"] += 1
                res["distinct_nontrivial"] += n > 0
            elif "Undefined Behavior" in text:
                res["violations"].append({"stage": "miri/miri", "idx": i, "kind": "miri-report", "message": report_of(text, ["Undefined Behavior"]), "case": {"seed": a.seed}})
            else:
                obs["miri: cases it could not execute"] = obs.get("miri: cases it could not execute", 0) + 1
                drv.log("miri case %d: %s" % (i, text[-400:]))
        time.sleep(0.1)
    for _, f, p in running:
        p.kill()
        p.wait()
        f.close()
        os.remove(f.name)
    return res


def python(mixed=False):
    """The monitors of the Python package, on the extension built from /repo."""

    def go(a, tier):
        if a.only and (a.only.startswith(("asan/", "tsan/", "miri/")) or (mixed and not a.only.startswith("py-"))):
            return {}
        rc, out = drv.build_py()
        if rc != 0:
            drv.log(out[-3000:])
            return {"problems": ["the Python extension does not build"]}
        cmd = [drv.PYTHON, os.path.join(drv.VERIF, "pymon", "main.py")]
        timeout = 700 if tier == "quick" else 6000
        res, st = drv.run_monitor(cmd, a.id, a.seed, tier, a.only, timeout, tag=".py", extra_args=["--pkg", os.path.join(drv.BUILD, "pkg")],
                                  extra_env={"RAYON_NUM_THREADS": "2", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
        if st == "ok":
            res["problems"] = res.get("harness_errors", [])
            return res
        if st == "timeout":
            return {"problems": ["monitor ran out of its wall budget"]}
        if st == "signal" and a.only and res["signal"] in FATAL:
            return {"violations": [{"stage": a.only.rsplit(":", 1)[0], "idx": int(a.only.rsplit(":", 1)[1]), "kind": "process-died",
                                    "message": "the process was killed by signal %d: %s" % (res["signal"], res["stderr"][-500:]), "case": {"seed": a.seed}}]}
        if "ImportError" in str(res) or "SyntaxError" in str(res) or "NameError" in str(res):
            return {"violations": [{"stage": "import", "idx": 0, "kind": "import-failed", "message": "the package cannot be imported: " + str(res)[-800:], "case": {}}]}
        return {"problems": ["monitor ended with %s: %s" % (st, str(res)[:1500])]}

    return go


CHECKS = {}
for _i in ["C%02d" % k for k in range(1, 26)] + ["C31", "C32"]:
    CHECKS[_i] = {"parts": [rust()], "min_nontrivial": {"quick": 500, "thorough": 2000}}
for _i in ["C27", "C28", "C29", "C30", "C33", "C34"]:
    CHECKS[_i] = {"parts": [python()], "min_nontrivial": {"quick": 300, "thorough": 2000},
                  "technique": "runtime monitoring: reference oracle over executions of the real Python package under generated workloads and histories"}
CHECKS["C22"]["parts"] = [rust(), python(mixed=True)]
CHECKS["C26"] = {"parts": [sanitizer("asan"), sanitizer("tsan"), miri, python()], "min_nontrivial": {"quick": 500, "thorough": 2000},
                 "technique": "AddressSanitizer, ThreadSanitizer (with an instrumented standard library) and Miri over generated fits and concurrent use; unsafe-precondition checks on the Python buffers"}
