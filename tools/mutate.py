#!/usr/bin/env python3
"""Mutation campaign over /repo/src: generates small edits, runs the Rust
monitors at a fifth of the quick counts on each, and the existing tests on
those no monitor notices.

  mutate.py OUT.jsonl [--workers 4] [--sample N] [--files a.rs,b.rs] [--seed S] [--hours H]

Works in scratch copies under /tmp/mut; never touches /repo.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, threading, time

CHECKS = ["C03", "C04", "C02", "C01", "C05", "C12", "C07", "C13", "C14", "C16", "C17", "C18", "C19", "C20", "C09", "C22", "C24", "C06", "C15", "C11", "C21", "C25", "C10", "C23", "C08", "C31", "C32"]
FIRST = {"metric.rs": ["C14", "C13"], "objective.rs": ["C03", "C15", "C13"], "sampler.rs": ["C20"], "binning.rs": ["C19", "C04"], "shapley.rs": ["C12", "C11"],
         "partial_dependence.rs": ["C17"], "utils.rs": ["C03", "C04"], "data.rs": ["C04"], "node.rs": ["C18", "C05"], "constraints.rs": ["C25", "C09"], "errors.rs": ["C22"]}
SWAPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\.max\(", [".min("]), (r"\.min\(", [".max("]),
    (r"(?<![\w!])!(?=[\w(])(?!\w*!)", [""]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])0\.0\b", ["1.0"]), (r"(?<![\w.])1\.0\b", ["0.0"]),
    (r"\bleft_", ["right_"]), (r"\bright_", ["left_"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
    (r"\bgradient\b", ["hessian"]), (r"\bupper_bound\b", ["lower_bound"]), (r"\blower_bound\b", ["upper_bound"]),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.abs\(\)", [""]), (r"\.par_", ["."]), (r"\.rev\(\)", [""]),
    (r"\bf64\b", ["f32 as f64"]), (r"\.\.=", [".."]), (r"\.sqrt\(\)", [""]), (r"f32::MAX", ["f32::MIN"]), (r"INFINITY", ["NEG_INFINITY"]),
]


def code_lines(path):
    """(number, line) of non-test, non-comment lines."""
    out, n = [], 0
    for n, l in enumerate(open(path).read().split("\n")):
        if l.startswith("#[cfg(test)]"):
            break
        s = l.strip()
        if not s or s.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "assert", "debug_assert")):
            continue
        out.append((n, l))
    return out


def mutants(files):
    out = []
    for f in files:
        for n, l in code_lines("/repo/src/" + f):
            code = l.split("//")[0]
            for pat, subs in SWAPS:
                for k, m in enumerate(re.finditer(pat, code)):
                    for s in subs:
                        new = l[:m.start()] + s + l[m.end():]
                        out.append((f, n, l, new))
            s = l.strip()
            if re.match(r"^[\w.\[\]*&]+(\.\w+)* ?([-+*/]?=) .*;$", s) or re.match(r"^[\w.]+\.\w+\(.*\);$", s) or s in ("break;", "continue;") or re.match(r"^\w+\(.*\)\??;$", s):
                if not s.startswith(("let", "return", "pub")):
                    out.append((f, n, l, l[:len(l) - len(l.lstrip())] + "// deleted"))
            m = re.match(r"^(\s*(?:\} else )?if )(?!let)(.*)( \{)$", l)
            if m:
                out.append((f, n, l, m.group(1) + "true || " + m.group(2) + m.group(3)))
                out.append((f, n, l, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
    seen, uniq = set(), []
    for m in out:
        if (m[0], m[1], m[3]) not in seen:
            seen.add((m[0], m[1], m[3]))
            uniq.append(m)
    return uniq


def sh(cmd, timeout, cwd=None, env=None):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -99, out


def worker(k, queue, lock, outf, deadline, threads):
    base = "/tmp/mut/w%d" % k
    os.makedirs(base, exist_ok=True)
    for src, dst in (("/repo", base + "/repo"), ("/verif/harness", base + "/harness")):
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target", ".git", "build"))
    t = base + "/harness/Cargo.toml"
    open(t, "a").close()
    txt = open(t).read().replace('path = "/repo"', 'path = "%s/repo"' % base)
    open(t, "w").write(txt)
    r = base + "/harness/src/run.rs"
    txt = open(r).read().replace("QUICK_SCALE: u64 = 5", "QUICK_SCALE: u64 = 1").replace("STUCK_CPU_S: f64 = 100.0", "STUCK_CPU_S: f64 = 25.0")
    open(r, "w").write(txt)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_BUILD_JOBS=str(threads), RAYON_NUM_THREADS=str(threads), FVM_THREADS=str(threads), RUST_BACKTRACE="0")
    while time.time() < deadline:
        with lock:
            if not queue:
                return
            f, n, old, new = queue.pop()
        p = base + "/repo/src/" + f
        orig = open("/repo/src/" + f).read()
        lines = orig.split("\n")
        assert lines[n] == old
        lines[n] = new
        open(p, "w").write("\n".join(lines))
        t0 = time.time()
        rc, out = sh(["cargo", "build", "--offline", "--bin", "fvm", "--target-dir", base + "/target"], 600, base + "/harness", env)
        res = {"file": f, "line": n + 1, "old": old.strip(), "new": new.strip()}
        if rc != 0:
            res["result"] = "nobuild"
        else:
            order = FIRST.get(f, []) + CHECKS
            order = list(dict.fromkeys(order))
            for c in order:
                o = base + "/out.json"
                if os.path.exists(o):
                    os.remove(o)
                rc, out = sh([base + "/target/debug/fvm", c, "--seed", "1", "--tier", "quick", "--threads", str(threads), "--out", o], 200, None, env)
                if rc != 0 or not os.path.exists(o):
                    res.update(result="died", by=c, msg="rc %d %s" % (rc, out[-200:]))
                    break
                j = json.load(open(o))
                if j["violations"]:
                    v = j["violations"][0]
                    res.update(result="caught", by=c, kind=v["kind"], stage=v["stage"], n=v["idx"])
                    break
                if j["harness_errors"]:
                    res.update(result="harness-error", by=c, msg=str(j["harness_errors"])[:300])
                    break
            else:
                rc, out = sh(["cargo", "test", "--offline", "--lib", "--release", "--target-dir", base + "/target"], 900, base + "/repo", env)
                res["result"] = "SURVIVED" if rc == 0 else "tests-only"
                if rc:
                    res["msg"] = out[-300:]
        res["secs"] = round(time.time() - t0)
        open(p, "w").write(orig)
        with lock:
            outf.write(json.dumps(res) + "\n")
            outf.flush()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--threads", type=int, default=2)
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--hours", type=float, default=2)
    ap.add_argument("--files", default="binning.rs,constraints.rs,data.rs,gradientbooster.rs,grower.rs,histogram.rs,metric.rs,node.rs,objective.rs,partial_dependence.rs,sampler.rs,shapley.rs,splitter.rs,tree.rs,utils.rs")
    a = ap.parse_args()
    q = mutants(a.files.split(","))
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            j = json.loads(l)
            done.add((j["file"], j["line"], j["new"]))
    q = [m for m in q if (m[0], m[1] + 1, m[3].strip()) not in done]
    random.Random(a.seed).shuffle(q)
    if a.sample:
        q = q[:a.sample]
    print(len(q), "mutants", flush=True)
    lock = threading.Lock()
    outf = open(a.out, "a")
    dl = time.time() + a.hours * 3600
    ts = [threading.Thread(target=worker, args=(k, q, lock, outf, dl, a.threads)) for k in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    main()
