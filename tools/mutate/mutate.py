#!/usr/bin/env python3
"""Mutation analysis of the checks: which small changes to the code does no
trace specification reject?  Not part of any check.

  mutate.py MUTANTS.json OUT.json [WORKERS [EVERY [OFFSET]]]

MUTANTS.json comes from main.go.  Every mutant is built through an overlay
(nothing in /repo changes), driven through a few cases of the scenarios that
reach its file, and the traces are validated with all the properties at once.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import check  # noqa: E402
from plan import SETS  # noqa: E402

REPO = "/repo"
TMP = "/tmp/w/mut"

IMPORT = [("context", 400), ("import", 500), ("append", 250), ("nocopy", 150), ("modifier", 250), ("modfault", 250), ("verify", 600), ("builder", 600), ("malformed", 300),
          ("import_store", 300), ("append_store", 200)]
PLAN = {
    "hamt/": [("bigdir", 60), ("locality", 600), ("dirdag", 1000), ("context", 600), ("hamt", 300), ("hamtfault", 300), ("dir", 200), ("dirfault", 150), ("enum", 200), ("kinds", 600), ("malformed", 900), ("resolve", 150),
              ("hamt_store", 200)],
    "io/directory": [("bigdir", 60), ("locality", 600), ("dirdag", 600), ("context", 600), ("dir", 400), ("dirfault", 300), ("enum", 150), ("resolve", 200), ("kinds", 600), ("malformed", 400), ("files", 60)],
    "importer/": IMPORT,
    "io/dagreader": [("huge", 200), ("locality", 600), ("filedag", 1500), ("context", 600), ("reader", 600), ("readerfault", 500), ("malformed", 500), ("modifier", 200), ("kinds", 600), ("files", 60)],
    "mod/": [("huge", 200), ("locality", 600), ("filedag", 400), ("context", 600), ("kinds", 200), ("modifier", 900), ("modfault", 700), ("malformed", 600), ("modifier_store", 400),
             ("modfault_store", 300)],
    "file/": [("bigdir", 60), ("locality", 600), ("dirdag", 500), ("filedag", 600), ("context", 600), ("kinds", 600), ("files", 250), ("filesfault", 250), ("malformed", 500)],
    "io/resolve": [("locality", 600), ("dirdag", 500), ("context", 600), ("resolve", 400), ("malformed", 400)],
    "unixfs.go": [("filedag", 600), ("fsnode", 500), ("fshelpers", 500), ("malformed", 900), ("import", 300), ("hamt", 100), ("kinds", 600), ("builder", 300), ("files", 60)],
}


def prepare():
    """A copy of the specifications where every property is selected."""
    d = os.path.join(TMP, "spec")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(ROOT, "spec"), d)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        s = open(p).read()
        s2 = re.sub(r"(?m)^P\(ids\) == .*$", "P(ids) == TRUE", s)
        if f.startswith("Trace") and f.endswith(".tla") and s2 == s and "PROP" in s:
            print("no P in", f)
        open(p, "w").write(s2)
    check.SPEC = d


def run_mutant(w, m):
    d = os.path.join(TMP, "w%d" % w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    src = open(os.path.join(REPO, m["file"]), "rb").read()
    mut = src[:m["off"]] + m["to"].encode() + src[m["off"] + m["len"]:]
    mf = os.path.join(d, "mut.go")
    open(mf, "wb").write(mut)
    h = os.path.join(ROOT, "harness")
    rep = {REPO + "/zz_verif/drv/" + f: os.path.join(h, f) for f in os.listdir(h) if f.endswith(".go")}
    rep[os.path.join(REPO, m["file"])] = mf
    json.dump({"Replace": rep}, open(os.path.join(d, "ov.json"), "w"))
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), d)
    env = check.goenv()
    env["GOMAXPROCS"] = "2"
    drv = os.path.join(d, "drv")
    p = subprocess.run(["go", "build", "-overlay", os.path.join(d, "ov.json"), "-modfile", os.path.join(d, "go.mod"),
                        "-o", drv, "./zz_verif/drv"], cwd=REPO, env=env, capture_output=True, text=True)
    if p.returncode:
        return "nobuild"
    for pref, sets in PLAN.items():
        if m["file"].startswith(pref):
            break
    for scen, cnt in sets:
        t = SETS[scen]
        o = os.path.join(d, scen)
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        env["GOLOG_LOG_LEVEL"] = "fatal"
        try:
            p = subprocess.run(["prlimit", "--as=6000000000", drv, "-scenario", t["scen"], "-seed", "7", "-count", str(cnt),
                                "-shards", "1", "-out", o, "-prop", "C00"] + (["-store"] if t.get("store") else []), env=env, capture_output=True, text=True,
                               timeout=150, errors="replace")
        except subprocess.TimeoutExpired:
            return "killed:%s:timeout" % scen
        if p.returncode not in (0, 3):
            return "killed:%s:crash" % scen
        f = os.path.join(o, "trace_0.ndjson")
        n = sum(1 for l in open(f) if l.strip())
        r = check.tlc(t["spec"], t.get("cfg", "Trace.cfg"), os.path.join(o, "tlc"), env={"TRACE": f, "PROP": "C00", "TIER": "quick"})
        a = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', r["out"])
        if not a or int(a.group(1)) < n or "No error has been found" not in r["out"]:
            return "killed:%s:%s" % (scen, a.group(1) if a else "undefined")
        shutil.rmtree(o)
    return "SURVIVED"


def main():
    ms = [json.loads(l) for l in open(sys.argv[1])]
    out = sys.argv[2]
    nw = int(sys.argv[3]) if len(sys.argv) > 3 else 8
    every = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    off = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    ms = ms[off::every]
    prepare()
    done = {}
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l)
            done[(x["file"], x["off"], x["to"])] = 1
    ms = [m for m in ms if (m["file"], m["off"], m["to"]) not in done]
    f = open(out, "a")
    free = list(range(nw))

    def one(m):
        w = free.pop()
        try:
            t = time.time()
            m["res"] = run_mutant(w, m)
            m["s"] = round(time.time() - t, 1)
        finally:
            free.append(w)
        f.write(json.dumps(m) + "\n")
        f.flush()

    with ThreadPoolExecutor(nw) as ex:
        for x in ex.map(one, ms):
            pass


if __name__ == "__main__":
    main()
