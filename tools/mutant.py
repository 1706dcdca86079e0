#!/usr/bin/env python3
"""mutant.py PATCH [--demo DEMO.sh] [--notest] [--reverse] PROP...: development tool, no check uses it.

Applies a patch to a copy of /repo under /tmp, builds it, runs the stable tests,
runs the demonstration with and without it, and runs the checks of the
properties against it."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import check

a = sys.argv[1:]
demo = None
if "--demo" in a:
    i = a.index("--demo"); demo = os.path.abspath(a[i + 1]); del a[i:i + 2]
notest = "--notest" in a
rev = "--reverse" in a
a = [x for x in a if not x.startswith("--")]
patch, props = os.path.abspath(a[0]), a[1:]
w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
try:
    r = w + "/repo"
    shutil.copytree("/repo", r, symlinks=True)
    def sh(*c, cwd=r, **k):
        return subprocess.run(c, cwd=cwd, env=check.goenv(), capture_output=True, text=True, errors="replace", **k)
    if demo:
        d = sh("bash", demo, timeout=300)
        print("demo clean:", d.returncode)
    p = sh("git", "apply", *(["-R"] if rev else []), patch)
    if p.returncode:
        print("patch doesn't apply", p.stderr); sys.exit(2)
    p = sh("go", "build", "./...")
    if p.returncode:
        print("doesn't build", p.stderr); sys.exit(2)
    if not notest:
        p = sh("go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./...")
        st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        res = {}
        mod = "github.com/ipfs/go-unixfs"
        for l in p.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") in ("pass", "fail") and "Test" in e:
                res[(e["Package"], e["Test"])] = e["Action"]
        bad = ["%s %s" % k for k, v in res.items() if v == "fail"]
        print("tests: %d passed, failed: %s" % (sum(v == "pass" for v in res.values()), bad[:6]))
    if demo:
        d = sh("bash", demo, timeout=300)
        print("demo mutated:", d.returncode, (d.stdout + d.stderr)[-400:] if "-v" in sys.argv else "")
    for pr in props:
        e = dict(os.environ, VERIF_REPO=r, VERIF_OUT=w + "/o_" + pr)
        os.makedirs(e["VERIF_OUT"], exist_ok=True)
        c = subprocess.run([sys.executable, ROOT + "/tools/check.py", pr, "quick"], env=e, capture_output=True, text=True)
        print(pr, "rc", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:2], c.stderr[-600:] if c.returncode not in (0, 1) else "")
        v = w + "/o_" + pr + "/out/" + pr + "/violation_0.json"
        if os.path.exists(v):
            shutil.copy(v, "/tmp/w/last_violation_%s.json" % pr)
finally:
    shutil.rmtree(w, ignore_errors=True)
