"""catch.py [--all] [id...]: applies each planted bug to /repo, runs the check
of its property (--all: every check), and undoes it."""
import json, os, subprocess, sys
allc = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir("/verif/seeded"))
man = json.load(open("/verif/MANIFEST.json"))
props = [c["property"] for c in man["checks"]]
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
for i in ids:
    d = "/verif/seeded/" + i
    m = json.load(open(d + "/meta.json"))
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        hit = []
        for p in (props if allc else [m["property"]]):
            r = subprocess.run(["python3", "check.py", p, "--tier", "quick"], cwd="/verif", capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            if r.returncode == 1 and "VIOLATION property=%s " % p in r.stdout:
                hit.append(p)
            elif r.returncode != 0:
                hit.append("%s?%d" % (p, r.returncode))
                print((r.stdout + r.stderr)[-500:])
        print(i, m["property"], "caught" if m["property"] in hit else "MISSED", hit, flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
