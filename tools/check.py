#!/usr/bin/env python3
"""check.py PROPERTY TIER: decides one property of go-unixfs.

1. Builds the driver (harness/) together with the code in /repo's working tree.
2. Model checks the design specifications of the property with TLC.
3. Has TLC generate histories from the specification, for the driver to replay.
4. Runs the driver, which exercises the real code and records traces.
5. Has TLC decide whether the trace specification accepts every trace.

Exit 0: everything accepted.  Exit 1 and a VIOLATION line: a trace of the real
code that the specification rejects (or a crash of the code).  Exit 2: the check
itself went wrong.
"""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import GENS, PLAN, SETS  # noqa: E402

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OUT = os.environ.get("VERIF_OUT", ROOT)  # where out/ and evidence/ are
SPEC = os.path.join(ROOT, "spec")
NPROC = 8


class CheckError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("GOROOT", "GOWORK"):
        e.pop(k, None)
    return e


def build(out, race=False):
    """Builds the driver with /repo's working tree, through an overlay."""
    h = os.path.join(ROOT, "harness")
    rep = {REPO + "/zz_verif/drv/" + f: os.path.join(h, f) for f in sorted(os.listdir(h)) if f.endswith(".go")}
    ov = os.path.join(out, "ov.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(out, f))
    drv = os.path.join(out, "drv")
    cmd = ["go", "build", "-overlay", ov, "-modfile", os.path.join(out, "go.mod"), "-o", drv]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["./zz_verif/drv"], cwd=REPO, env=goenv(), capture_output=True, text=True)
    if p.returncode:
        raise CheckError("the driver doesn't build:\n" + p.stderr[-4000:])
    return drv


def tlc(spec, cfg, meta, env=None, workers=1, args=(), timeout=800, heap="2g"):
    e = dict(os.environ)
    e.update(env or {})
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xss512m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-config", os.path.join(SPEC, cfg),
           "-noGenerateSpecTE", "-metadir", os.path.join(meta, "states"), "-workers", str(workers)]
    t = time.time()
    try:
        p = subprocess.run(cmd + list(args) + [os.path.join(SPEC, spec)], cwd=meta, env=e, capture_output=True,
                           text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        out, rc = (o.decode() if isinstance(o, bytes) else o) + "\nTIMEOUT", -1
    shutil.rmtree(os.path.join(meta, "states"), ignore_errors=True)
    gen, dist = 0, 0
    m = re.findall(r"(\d+) states generated.*?(\d+) distinct states found", out.replace(",", ""))
    if m:
        gen, dist = int(m[-1][0]), int(m[-1][1])
    return {"out": out, "rc": rc, "generated": gen, "distinct": dist, "wall": time.time() - t}


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.out = os.path.join(OUT, "out", prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.events = 0
        self.samples, self.parts, self.violations = [], [], []

    # -- design-level model checking -------------------------------------
    def config(self, m, tag, extra=None):
        """The configuration file m["cfg"], with the constants of the tier."""
        t = open(os.path.join(SPEC, m["cfg"])).read()
        vals = dict(m.get("set", {}).get("all", {}))
        vals.update(m.get("set", {}).get(self.tier, {}))
        vals.update(extra or {})
        for k, v in vals.items():
            if k == "VIEW":
                t, n = re.subn(r"(?m)^VIEW .*$", "VIEW " + v, t)
            else:
                t, n = re.subn(r"(?m)^(\s*)%s = .*$" % re.escape(k), lambda x: "%s%s = %s" % (x.group(1), k, v), t)
            if n != 1:
                raise CheckError("no constant %s in %s" % (k, m["cfg"]))
        if m.get("nocheck"):
            t = re.sub(r"(?m)^(INVARIANTS?|PROPERT(Y|IES)) .*$", "", t)
        f = os.path.join(self.out, tag + ".cfg")
        open(f, "w").write(t)
        return f

    def model_check(self, m):
        self.model_run(m, m["spec"][:-4] + m.get("tag", ""))
        # Mistakes that the model check has to find: it isn't vacuous.
        if self.tier != "quick" or m.get("flaws_quick"):
            for fl in m.get("flaws", []):
                self.model_run(m, m["spec"][:-4] + m.get("tag", "") + "_" + fl, fl)

    def model_run(self, m, tag, flaw=None):
        cfg = self.config(m, "mc_" + tag, {"Flaw": '"%s"' % flaw} if flaw else None)
        r = tlc(m["spec"], cfg, os.path.join(self.out, "mc_" + tag), workers=m.get("workers", 4),
                args=m.get("args", []), heap=m.get("heap", "5g"), timeout=m.get("timeout", 600),
                env={"PROP": self.prop, "TIER": self.tier})
        open(os.path.join(self.out, "mc_" + tag + ".log"), "w").write(r["out"])
        if flaw:
            if " is violated" not in r["out"] and "properties were violated" not in r["out"]:
                raise CheckError("model checking %s doesn't find the flaw %s:\n%s" % (m["spec"], flaw, r["out"][-3000:]))
            self.parts.append({"model": m["spec"], "flaw_found": flaw})
            return
        part = {"model": m["spec"], "constants": dict(re.findall(r"(?m)^\s*(\w+) = (.*)$", open(cfg).read())),
                "distinct_states": r["distinct"], "states_generated": r["generated"], "wall_s": round(r["wall"], 1)}
        if r["out"].rstrip().endswith("TIMEOUT") and self.tier != "quick" and "rror:" not in r["out"]:
            g = re.findall(r"Progress\((\d+)\).*?: ([\d,]+) states generated.*?([\d,]+) distinct", r["out"])
            part["incomplete_at_depth"] = int(g[-1][0]) if g else 0
            part["states_generated"], part["distinct_states"] = [int(x.replace(",", "")) for x in g[-1][1:]] if g else (0, 0)
        elif "No error has been found" not in r["out"]:
            raise CheckError("model checking %s failed:\n%s" % (m["spec"], r["out"][-3000:]))
        self.states += part["distinct_states"]
        self.trans += part["states_generated"]
        self.parts.append(part)

    # -- histories generated by TLC ---------------------------------------
    def generate(self, g, tag, seed):
        """TLC prints histories, as "GEN" followed by a JSON array."""
        meta = os.path.join(self.out, "gen_" + tag)
        os.makedirs(meta, exist_ok=True)
        f = os.path.join(meta, "ops.ndjson")
        args = []
        if "simulate" in g:
            args += ["-simulate", "num=%d" % g["simulate"][self.tier], "-depth", str(g["depth"]), "-seed", str(seed)]
        r = tlc(g["spec"], self.config(dict(g, nocheck=True), "gen_" + tag), meta,
                env={"PROP": self.prop, "TIER": self.tier}, args=args, timeout=g.get("timeout", 300))
        lines = []
        for l in r["out"].splitlines():
            # PrintT(ToJson(...)) prints a quoted string
            if l.startswith('"GEN['):
                lines.append(json.loads(l)[3:])
        if "rror:" in r["out"] or not lines:
            raise CheckError("generation from %s failed:\n%s" % (g["spec"], r["out"][-3000:]))
        lines = list(dict.fromkeys(lines))
        with open(f, "w") as o:
            o.write("\n".join(lines) + "\n")
        return f, len(lines), r

    # -- one driver run and the validation of its traces --------------------
    def drive(self, drv, t, frm, count, tag, ops=None, variant=0):
        d = os.path.join(self.out, tag)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shards = max(1, min(t.get("shards", NPROC), (count + 19) // 20))
        args = ["-scenario", t["scen"], "-seed", str(self.seed), "-from", str(frm), "-count", str(count),
                "-shards", str(shards), "-out", d, "-tier", self.tier, "-prop", self.prop]
        if t.get("store"):
            args += ["-store"]
        if ops:
            args += ["-ops", ops, "-variant", str(variant)]
        env = goenv()
        env["GOMAXPROCS"] = str(t.get("procs", 4))
        env["GOMEMLIMIT"] = "6GiB"
        env["GOLOG_LOG_LEVEL"] = "fatal"
        try:
            p = subprocess.run([drv] + args, env=env, capture_output=True, text=True, timeout=t.get("timeout", 600),
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("the driver takes too long: " + " ".join(args))
        open(os.path.join(d, "stderr"), "w").write(p.stderr)
        return d, shards, p, args

    def crashed_in_code(self, err):
        """Whether the process was brought down by the code under test."""
        m = re.search(r"^(panic:|fatal error:)", err, re.M)
        if not m:
            return False
        tail = err[m.start():]
        g = re.search(r"^goroutine .*?(?=^goroutine |\Z)", tail, re.M | re.S)
        stack = g.group(0) if g else tail
        return any("go-unixfs/" in l and "go-unixfs/zz_verif" not in l for l in stack.splitlines())

    def trace_set(self, drv, t, frm, count, tag, ops=None, variant=0):
        d, shards, p, args = self.drive(drv, t, frm, count, tag, ops, variant)
        if p.returncode not in (0, 3):
            if self.crashed_in_code(p.stderr):
                f = os.path.join(d, "trace_0.ndjson")
                with open(f, "w") as o:
                    o.write(json.dumps({"ev": "Crash", "case": -1}) + "\n")
                r = self.validate(t, f, d, 0)
                if r["accepted"] == r["len"]:
                    raise CheckError("a trace with a crash was accepted")
                self.violation(t, args, [{"ev": "Crash", "stderr": p.stderr[-6000:]}], tag)
                return
            raise CheckError("the driver failed (%d): %s\n%s" % (p.returncode, " ".join(args), p.stderr[-3000:]))
        s = json.load(open(os.path.join(d, "summary.json")))
        files = [os.path.join(d, "trace_%d.ndjson" % k) for k in range(shards)]
        with ThreadPoolExecutor(NPROC) as ex:
            res = list(ex.map(lambda kf: self.validate(t, kf[1], d, kf[0]), enumerate(files)))
        bad = None
        for f, r in zip(files, res):
            if r is None:
                continue
            self.states += r["distinct"]
            self.trans += r["generated"]
            self.events += r["len"]
            if r["accepted"] < r["len"] and bad is None:
                bad = (f, r)
        if bad:
            f, r = bad
            lines = open(f).read().split("\n")
            case = json.loads(lines[r["accepted"]])["case"]
            seg = [json.loads(l) for l in lines[:r["accepted"] + 1] if l.strip() and json.loads(l)["case"] == case]
            self.violation(t, args, seg, tag, case)
        self.traces += s["cases"]
        if len(self.samples) < 3 and s["samples"]:
            self.samples += shorten(s["samples"][:1])
        self.parts.append({"scenario": t["scen"], "from": frm, "cases": s["cases"], "events": s["events"],
                           "distinct_kinds": s["kinds"], "trace_spec": t["spec"], "driver_s": round(s["wall_s"], 1),
                           "generated_by_tlc": bool(ops)})

    def validate(self, t, f, d, k):
        n = sum(1 for l in open(f) if l.strip())
        if n == 0:
            return None
        meta = os.path.join(d, "tlc_%d" % k)
        r = tlc(t["spec"], t.get("cfg", "Trace.cfg"), meta, env={"TRACE": f, "PROP": self.prop, "TIER": self.tier},
                timeout=t.get("tlc_timeout", 600))
        open(os.path.join(meta, "log"), "w").write(r["out"][-20000:])
        m = re.search(r'<<"ACCEPTED", (\d+), (\d+)>>', r["out"])
        if self.undefined_on_trace(r):
            # The event has a shape for which the specification isn't even
            # defined (an index out of its range, say): it isn't accepted.
            return {"accepted": min(r["distinct"] - 1, n - 1), "len": n, "distinct": r["distinct"], "generated": r["generated"]}
        if not m or "No error has been found" not in r["out"]:
            raise CheckError("TLC failed on %s %s:\n%s" % (t["spec"], f, r["out"][-3000:]))
        if int(m.group(2)) != n:
            raise CheckError("TLC read %s of %d events" % (m.group(2), n))
        return {"accepted": int(m.group(1)), "len": n, "distinct": r["distinct"], "generated": r["generated"]}

    def undefined_on_trace(self, r):
        o = r["out"]
        if "ndDeserialize" in o or "StackOverflow" in o or "OutOfMemory" in o or "TIMEOUT" in o or "Parsing or semantic" in o:
            return False
        return bool(re.search(r"TLC threw an unexpected exception|Attempted to |Error: Evaluating|The error occurred when TLC was evaluating", o)) and r["distinct"] >= 1

    def violation(self, t, args, seg, tag, case=None):
        f = os.path.join(self.out, "violation_%d.json" % len(self.violations))
        json.dump({"property": self.prop, "trace_spec": t["spec"], "driver_args": args, "case": case,
                   "rejected_event": seg[-1] if seg else None, "history": seg}, open(f, "w"), indent=1)
        self.violations.append(f)

    # -- all of it ------------------------------------------------------------
    def run(self):
        plan = PLAN[self.prop]
        quick = self.tier == "quick"
        ex = ThreadPoolExecutor(2)
        futs = [ex.submit(self.model_check, m) for m in plan.get("mc", [])]
        drv = build(self.out)
        if not quick:
            for f in futs:
                f.result()
        # Histories from the specification, all of them.
        for name in plan.get("gen", []):
            if not self.violations:
                g = GENS[name]
                ops, cnt, r = self.generate(g, name, self.seed)
                self.parts.append({"generator": g["spec"], "histories": cnt, "states_generated": r["generated"]})
                for k, tag in enumerate(g.get("variants", {}).get(self.tier, [0])):
                    if not self.violations:
                        self.trace_set(drv, SETS[g["set_name"]], 0, cnt, "g_%s_%d" % (name, k), ops=ops, variant=tag)
        if quick:
            for name, sizes in plan["sets"]:
                if not self.violations:
                    self.trace_set(drv, SETS[name], 0, sizes["quick"], "t_" + name)
        else:
            # As many batches as the time allows.
            end = self.t0 + plan.get("thorough_s", 720)
            k = 0
            while not self.violations and (k == 0 or time.time() < end):
                for name, sizes in plan["sets"]:
                    n = sizes.get("thorough", sizes["quick"] * 2)
                    if not self.violations and (k == 0 or time.time() < end):
                        self.trace_set(drv, SETS[name], k * n, n, "t_" + name)
                k += 1
        for f in futs:
            f.result()

    def evidence(self):
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.trans,
                           "traces_validated_against_impl": self.traces, "events_validated": self.events,
                           "parts": self.parts, "samples": self.samples},
              "assumptions": PLAN[self.prop].get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        json.dump(ev, open(os.path.join(OUT, "evidence", self.prop + ".json"), "w"), indent=1)


def shorten(x, n=40):
    """Samples for the evidence file: long sequences are cut."""
    if isinstance(x, list):
        y = [shorten(v, n) for v in x[:n]]
        return y + ["...%d more" % (len(x) - n)] if len(x) > n else y
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    return x


def known(prop):
    f = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("known: property=%s " % prop):
                print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2].strip()))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    r = Run(prop, tier, seed)
    try:
        r.run()
    except CheckError as x:
        if not r.violations:
            print("CHECK ERROR:", x, file=sys.stderr)
            sys.exit(2)
    r.evidence()
    known(prop)
    print("%s %s: %d traces, %d events, %d states, %.1f s" % (prop, tier, r.traces, r.events, r.states, time.time() - r.t0))
    for v in r.violations:
        print("VIOLATION property=%s replay=%s" % (prop, v))
    if r.violations:
        sys.exit(1)
    # Nothing to look at: give the disk space back.
    for e in os.listdir(r.out):
        p = os.path.join(r.out, e)
        if os.path.isdir(p):
            shutil.rmtree(p)
        elif e == "drv":
            os.remove(p)


if __name__ == "__main__":
    main()
