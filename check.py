#!/usr/bin/env python3
"""Driver of every check: builds the monitor from /repo's working tree, runs it,
writes evidence/<id>.json and reports.

  check.py <ID> [--tier quick|thorough] [--seed N] [--only stage:idx]

exit 0  the property held on everything explored
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the check itself could not decide (build failure, harness error, too
        little observed)
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import time

REPO = "/repo"
VERIF = os.path.dirname(os.path.abspath(__file__))
EVID = os.path.join(VERIF, "evidence")
BUILD = os.path.join(VERIF, "build")
TARGET = "x86_64-unknown-linux-gnu"
PYTHON = "/opt/pyenv/bin/python"
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
sys.path.insert(0, os.path.join(VERIF, "driver"))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def source_hash():
    """Digest of everything in /repo that goes into a build (not mtimes)."""
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(REPO, "py-forust", "src"), os.path.join(REPO, "py-forust", "forust")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(REPO, "py-forust", "Cargo.toml")]
    for r in roots:
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs if not f.endswith((".so", ".pyc"))]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def fresh(target_dir, manifest, packages, env):
    """cargo trusts mtimes; this makes it rebuild whenever the sources differ."""
    mark = os.path.join(target_dir, ".fvm-sources")
    now = source_hash()
    if os.path.isdir(target_dir) and not (os.path.exists(mark) and open(mark).read() == now):
        for p in packages:
            subprocess.run(["cargo", "clean", "--offline", "--manifest-path", manifest, "--target-dir", target_dir, "-p", p],
                           env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(mark):
            os.remove(mark)
    return mark, now


def build(bin_, profile_dir="main", extra=None, env=None):
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
           "--target-dir", os.path.join(BUILD, profile_dir), "--bin", bin_] + (extra or [])
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.update(env or {})
    td = os.path.join(BUILD, profile_dir)
    mark, now = fresh(td, os.path.join(VERIF, "harness", "Cargo.toml"), ["forust-ml", "fvm"], e)
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        with open(mark, "w") as f:
            f.write(now)
    return p.returncode, p.stdout


SAN = {
    "asan": {"flags": "-Zsanitizer=address", "extra": [], "env": {"ASAN_OPTIONS": "exitcode=67:detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1"}},
    "tsan": {"flags": "-Zsanitizer=thread --cfg crossbeam_sanitize_thread", "extra": ["-Zbuild-std"],
             "env": {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:history_size=4:suppressions=" + os.path.join(VERIF, "harness", "san", "tsan.supp")}},
}
MIRI_ENV = {"MIRIFLAGS": "-Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-permissive-provenance", "RAYON_NUM_THREADS": "2"}


def build_san(kind):
    """The monitor binary under a compiler sanitizer (nightly)."""
    td = os.path.join(BUILD, kind)
    manifest = os.path.join(VERIF, "harness", "Cargo.toml")
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTFLAGS=SAN[kind]["flags"], CARGO_INCREMENTAL="0")
    mark, now = fresh(td, manifest, ["forust-ml", "fvm"], e)
    p = subprocess.run(["cargo", "+nightly", "build", "--offline", "--manifest-path", manifest, "--target", TARGET, "--target-dir", td, "--bin", "fvm"] + SAN[kind]["extra"],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0:
        with open(mark, "w") as f:
            f.write(now)
    return p.returncode, p.stdout


def miri_cmd(*args):
    return ["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"),
            "--target-dir", os.path.join(BUILD, "miri"), "--bin", "fvm-miri", "--"] + [str(a) for a in args]


def build_miri():
    td = os.path.join(BUILD, "miri")
    manifest = os.path.join(VERIF, "harness", "Cargo.toml")
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", **MIRI_ENV)
    mark = os.path.join(td, ".fvm-sources")
    now = source_hash()
    if os.path.isdir(td) and not (os.path.exists(mark) and open(mark).read() == now):
        # cargo clean does not reach miri's own target directory by itself
        for root, dirs, _ in os.walk(td):
            for d in list(dirs):
                if d.startswith(("forust-ml-", "forust_ml-", "fvm-")):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                    dirs.remove(d)
    p = subprocess.run(miri_cmd(1, 0, 0), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode == 0 and "done " in p.stdout:
        with open(mark, "w") as f:
            f.write(now)
        return 0, p.stdout
    return 1, p.stdout


def build_py():
    """The extension module and the Python sources as a package outside /repo."""
    manifest = os.path.join(REPO, "py-forust", "Cargo.toml")
    td = os.path.join(BUILD, "py")
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", PYO3_PYTHON=PYTHON, CARGO_PROFILE_DEV_OPT_LEVEL="2",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="true", CARGO_INCREMENTAL="0")
    mark, now = fresh(td, manifest, ["forust-ml", "py-forust"], e)
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", manifest, "--target-dir", td], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return p.returncode, p.stdout
    with open(mark, "w") as f:
        f.write(now)
    pkg = os.path.join(BUILD, "pkg")
    shutil.rmtree(pkg, ignore_errors=True)
    src = os.path.join(REPO, "py-forust", "forust")
    shutil.copytree(src, os.path.join(pkg, "forust"), ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.pyc"))
    shutil.copyfile(os.path.join(td, "debug", "libforust.so"), os.path.join(pkg, "forust", "forust.so"))
    return 0, p.stdout


def run_monitor(binary, pid, seed, tier, only, timeout, extra_env=None, tag="", extra_args=None):
    """Runs a monitor process; returns (result dict or None, status text)."""
    out = os.path.join(EVID, "%s%s.result.json" % (pid, tag))
    for f in os.listdir(EVID):
        if f.startswith(os.path.basename(out)):
            os.remove(os.path.join(EVID, f))
    cmd = (binary if isinstance(binary, list) else [binary]) + [pid, "--seed", str(seed), "--tier", tier, "--out", out, "--known", KNOWN] + (extra_args or [])
    if only:
        cmd += ["--only", only]
    env = dict(os.environ, RUST_BACKTRACE="0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    env.update(extra_env or {})
    errf = out + ".stderr"
    with open(errf, "w") as ef:
        p = subprocess.Popen(cmd, env=env, stdout=ef, stderr=ef)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return None, "timeout"
    full = open(errf, errors="replace").read()
    err = full[-4000:]
    if rc == 0 and os.path.exists(out):
        res = json.load(open(out))
        cleanup(out)
        return res, "ok"
    if rc < 0:
        return {"signal": -rc, "stderr": err, "full": full[:20000], "inflight": inflight(out)}, "signal"
    return {"rc": rc, "stderr": err, "full": full[:20000], "inflight": inflight(out)}, "error"


def inflight(out):
    res = []
    d = os.path.dirname(out)
    for f in sorted(os.listdir(d)):
        if f.startswith(os.path.basename(out) + ".inflight"):
            t = open(os.path.join(d, f)).read().split()
            if len(t) == 2:
                res.append(":".join(t))
    return res


def cleanup(out):
    d = os.path.dirname(out)
    for f in os.listdir(d):
        if f.startswith(os.path.basename(out)):
            os.remove(os.path.join(d, f))


def write_evidence(pid, tier, seed, coverage, wall, nviol, assumptions):
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
          "wall_s": round(wall, 3), "violations": nviol, "assumptions": assumptions}
    tmp = os.path.join(EVID, "%s.json.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, "%s.json" % pid))


def replay_file(pid, v):
    path = os.path.join(EVID, "%s.replay.json" % pid)
    with open(path, "w") as f:
        json.dump(v, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    a = ap.parse_args()
    os.makedirs(EVID, exist_ok=True)
    pid = a.id
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    from table import CHECKS
    spec = CHECKS[pid]
    t0 = time.time()
    merged = {"evaluations": 0, "distinct_nontrivial": 0, "observed": {}, "rule": [], "samples": []}
    violations, known, problems = [], [], []
    for part in spec["parts"]:
        res = part(a, tier)  # -> dict(kind=..., ...)
        merged["evaluations"] += res.get("evaluations", 0)
        merged["distinct_nontrivial"] += res.get("distinct_nontrivial", 0)
        for k, v in res.get("observed", {}).items():
            merged["observed"][k] = merged["observed"].get(k, 0) + v if isinstance(v, (int, float)) and not isinstance(v, bool) else v
        if res.get("rule"):
            merged["rule"].append(res["rule"])
        merged["samples"] += res.get("samples", [])[:4]
        violations += res.get("violations", [])
        known += res.get("known", [])
        problems += res.get("problems", [])
        if violations:
            break
    merged["rule"] = "; ".join(merged["rule"]) or "see DESIGN.md"
    write_evidence(pid, tier, a.seed, merged, time.time() - t0, len(violations), spec.get("assumptions", []))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    if violations:
        v = violations[0]
        v["how_to_replay"] = "VERIF_SEED=%d python3 /verif/check.py %s --tier %s --only %s:%s" % (
            a.seed, pid, tier, v.get("stage", ""), v.get("idx", ""))
        path = replay_file(pid, v)
        log("%s: %s" % (v.get("kind"), v.get("message")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if problems:
        for p in problems:
            log("INCONCLUSIVE %s: %s" % (pid, p))
        return 2
    need = spec.get("min_nontrivial", {}).get(tier, 0)
    if not a.only and merged["distinct_nontrivial"] < need:
        log("INCONCLUSIVE %s: only %d distinct non-trivial cases observed, %d wanted" % (pid, merged["distinct_nontrivial"], need))
        return 2
    print("%s held: %d evaluations, %d distinct non-trivial, %.1f s" % (pid, merged["evaluations"], merged["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main())
