"""Confirms planted bugs in scratch copies of /repo and keeps them in /verif/seeded.

plant.py DEFS.py [id...]: DEFS.py sets BUGS = {id: {"property", "needs",
"what_it_breaks", "edits": [(file, old, new)], "demo": python source}} (or
"files": {name: text} and "sh": demo.sh text). A bug is kept when it applies,
builds, passes the stable tests and its demonstration tells the two apart.
"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf, threading, queue

SLOTS = int(os.environ.get("SLOTS", "3"))
ROOT = "/tmp/plant"
DEMO_SH = """#!/bin/bash
# Run in the repository after its build: exit 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/py-forust" PYTHONDONTWRITEBYTECODE=1
exec /opt/pyenv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def slot(k):
    d = "%s/%d" % (ROOT, k)
    if not os.path.isdir(d):
        os.makedirs(d)
        sh("cp -a /repo %s/repo" % d)
        for f in ("build.sh", "test.sh", "common.sh", "results.py"):
            t = open("/opt/vp/" + f).read()
            t = t.replace("/repo", d + "/repo").replace("/opt/vp", d)
            open("%s/%s" % (d, f), "w").write(t)
    rc, head = sh("git rev-parse HEAD", "/repo")
    sh("git fetch -q /repo HEAD && git reset -q --hard %s && git checkout -q -f %s" % (head.strip(), head.strip()), d + "/repo")
    return d


def clean_demo(d, bug, out):
    rc, o = sh("bash %s/demo.sh" % out, d + "/repo", 300)
    return rc, o


def write(bug, out):
    os.makedirs(out, exist_ok=True)
    if "demo" in bug:
        open(out + "/demo.py", "w").write(bug["demo"])
        open(out + "/demo.sh", "w").write(DEMO_SH)
    else:
        for n, t in bug["files"].items():
            os.makedirs(os.path.dirname(out + "/" + n), exist_ok=True)
            open(out + "/" + n, "w").write(t)
        open(out + "/demo.sh", "w").write(bug["sh"])
    json.dump({k: bug[k] for k in ("property", "needs", "what_it_breaks")}, open(out + "/meta.json", "w"), indent=1)


def one(d, bid, bug):
    repo = d + "/repo"
    sh("git checkout -q -- .", repo)
    out = "%s/out/%s" % (ROOT, bid)
    shutil.rmtree(out, ignore_errors=True)
    write(bug, out)
    rc, o = sh("bash %s/build.sh" % d)
    if rc:
        return "clean build failed " + o[-500:]
    rc, o = clean_demo(d, bug, out)
    if rc != 0:
        return "demo fails on the clean tree: " + o[-600:]
    for f, a, b in bug["edits"]:
        s = open("%s/%s" % (repo, f)).read()
        if s.count(a) != 1:
            return "edit matches %d times in %s" % (s.count(a), f)
        open("%s/%s" % (repo, f), "w").write(s.replace(a, b))
    rc, diff = sh("git diff", repo)
    open(out + "/patch.diff", "w").write(diff)
    try:
        rc, o = sh("bash %s/build.sh" % d)
        if rc:
            return "patched build failed " + "\n".join(l for l in o.splitlines() if "error" in l or "-->" in l)[-800:]
        rc, o = clean_demo(d, bug, out)
        if rc == 0:
            return "demo passes on the patched tree: " + o[-300:]
        sh("bash %s/test.sh %s/t.json" % (d, d))
        t = json.load(open(d + "/t.json"))
        lost = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(t["passed"]))
        if lost:
            return "caught by tests: %s" % lost[:4]
    finally:
        sh("git checkout -q -- .", repo)
    keep = os.path.join(os.environ.get("KEEP", "/verif/seeded"), bid)
    shutil.rmtree(keep, ignore_errors=True)
    shutil.copytree(out, keep)
    return "kept (demo said: %s)" % o.strip()[-160:].replace("\n", " | ")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = ns["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    q = queue.Queue()
    for i in ids:
        q.put(i)
    def work(k):
        d = slot(k)
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                return
            try:
                r = one(d, i, bugs[i])
            except Exception as e:
                r = "error %r" % e
            print(i, r, flush=True)
    with cf.ThreadPoolExecutor(SLOTS) as ex:
        list(ex.map(work, range(SLOTS)))


main()
