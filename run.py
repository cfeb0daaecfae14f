#!/usr/bin/env python3
"""run.py <property> : decide one property with its TLA+ specification.

1. design   - TLC explores the specification itself (small constants, every
              reachable state) and checks its invariants.
2. bind     - a Go driver, compiled from /repo's working tree, runs the real
              code on seeded (or TLC-generated) inputs and records what it did.
3. conform  - TLC replays every recording through the specification; a
              recording the specification does not allow is a violation, once
              the driver has reproduced it and TLC has rejected it again.

Exit 0: held.  Exit 1 + VIOLATION line: broken.  Anything else: check error.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS, FALLBACK  # noqa: E402

TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")


# --------------------------------------------------------------- go driver

def build_driver(name, scratch):
    """Compile harness/<name> against REPO's working tree, leaving it untouched."""
    mod = os.path.join(scratch, "gov1.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "gov1.sum"))
    rep = {}
    h = os.path.join(HERE, "harness")
    for f in os.listdir(os.path.join(h, "drvlib")):
        rep[f"{REPO}/internal/verifdrv/drvlib/{f}"] = os.path.join(h, "drvlib", f)
    for f in os.listdir(os.path.join(h, name)):
        full = os.path.join(h, name, f)
        if f.endswith(".go") and os.path.isfile(full):
            rep[f"{REPO}/internal/verifdrv/{name}/{f}"] = full
        elif os.path.isdir(full):
            # files that join a package of the repository: <name>/<pkg>/x_verif.go
            for g in os.listdir(full):
                rep[f"{REPO}/internal/{f}/{g}"] = os.path.join(full, g)
    ov = os.path.join(scratch, f"overlay_{name}.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    exe = os.path.join(scratch, "drv_" + name)
    rc, out = sh(["go", "build", "-buildvcs=false", "-tags", "verif", "-overlay", ov, "-o", exe,
                  f"./internal/verifdrv/{name}"], cwd=REPO, timeout=600,
                 env={"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": f"-mod=mod -modfile={mod}",
                      "GOWORK": "off"})
    if rc:
        raise CheckError(f"driver {name} does not build:\n{out[-3000:]}")
    return exe


def drive(exe, args, out, scratch, timeout=600):
    """Run the driver; a process death is pinned to the case that caused it."""
    rc, txt = sh([exe, "-out", out] + args, cwd=scratch, timeout=timeout)
    if rc == 0:
        return None
    prog = out + ".progress"
    rc2, txt2 = sh([exe, "-out", out, "-progress", prog] + args, cwd=scratch, timeout=timeout)
    if rc2 == 0:
        return None
    if not os.path.exists(prog):
        raise CheckError(f"driver died (rc {rc}):\n{txt[-2000:]}")
    one = out + ".one"
    rc3, txt3 = sh([exe, "-out", one, "-replay", prog], cwd=scratch, timeout=120)
    if rc3 == 0:
        raise CheckError(f"driver death not reproduced (rc {rc}):\n{txt[-2000:]}")
    case = json.loads(open(prog).readline())
    case["out"] = {"st": "crash", "msg": txt3[:2000]}
    return case


# --------------------------------------------------------------- TLC

STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found", re.M)


def tlc(module, cfg, scratch, env=None, workers=8, timeout=800, heap="6g", extra=()):
    md = tempfile.mkdtemp(prefix="tlc", dir=scratch)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss512m", "-XX:ParallelGCThreads=4", "-cp", CP, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-fp", "1", *extra, module + ".tla"]
    e = {"TMPDIR": md, "JAVA_TOOL_OPTIONS": f"-Djava.io.tmpdir={md}"}
    e.update(env or {})
    rc, out = sh(cmd, env=e, cwd=os.path.join(HERE, "spec"), timeout=timeout)
    m = STATS.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    shutil.rmtree(md, ignore_errors=True)
    return {"rc": rc, "out": out, "generated": gen, "distinct": dist}


def tlc_rejection(res):
    """Case index named by a conformance failure, or None when TLC accepted."""
    if res["rc"] == 0:
        return None
    out = res["out"]
    if res["rc"] in (11, 12) and ("is violated" in out or "Deadlock reached" in out):
        m = re.findall(r"ci = (\d+)", out)
        if m:
            return int(m[-1])
    raise CheckError(f"TLC failed (rc {res['rc']}):\n{out[-4000:]}")


# --------------------------------------------------------------- one check

def known_findings(pid):
    """Listed, unrepaired findings: lines 'open: property=<id> key=<json>  <text>'."""
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"open: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            res.append((m.group(2), m.group(3).strip()))
    return res


class Check:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.spec = CHECKS[pid]
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "design_runs": [], "conformance_runs": []}
        self.violation = None

    def design(self):
        for d in self.spec.get("design", []):
            cfg = d["cfg"] if self.tier == "quick" else d.get("thorough_cfg", d["cfg"])
            r = tlc(d["module"], cfg, self.scratch, timeout=800, extra=d.get("extra", ()))
            if r["rc"] != 0:
                raise CheckError(f"design model {d['module']}/{cfg} is not clean (rc {r['rc']}):\n{r['out'][-4000:]}")
            self.cov["states"] += r["distinct"]
            self.cov["transitions"] += r["generated"]
            self.cov["design_runs"].append({"model": d["module"], "cfg": cfg, "distinct_states": r["distinct"],
                                            "states_generated": r["generated"]})

    def judge(self, module, cfg, f, ncases):
        return tlc(module, cfg, self.scratch, env={"TRACE": f}, timeout=850)

    def confirm(self, c, exe, case):
        """Re-run the real code on the rejected input and judge it again."""
        one = os.path.join(self.scratch, "one.in")
        res = os.path.join(self.scratch, "one.out")
        json.dump(case, open(one, "w"))
        crash = drive(exe, ["-replay", one], res, self.scratch, timeout=300)
        if crash:
            return crash, None
        again = json.loads(open(res).readline())
        r = self.judge(c["trace"], c.get("cfg", c["trace"] + ".cfg"), res, 1)
        return again, (tlc_rejection(r), r["out"])

    def conform(self, c, exe, seed, n, frm=0):
        f = os.path.join(self.scratch, f"{c['driver']}_{seed}_{frm}.ndjson")
        args = ["-seed", str(seed), "-n", str(n), "-from", str(frm)]
        if c.get("gen"):
            src = os.path.join(self.scratch, "gen.ndjson")
            self.generate(c["gen"], src, seed)
            args = ["-replay", src]
        if c.get("gen"):
            crash = drive(exe, args, f, self.scratch)
        else:
            crash = self.drive_sharded(exe, seed, n, frm, f)
        if crash:
            self.report(c, crash, "the process died: " + crash["out"]["msg"][:400])
            return
        lines = open(f).read().splitlines()
        if not lines:
            raise CheckError("driver recorded nothing")
        r = self.judge(c["trace"], c.get("cfg", c["trace"] + ".cfg"), f, len(lines))
        bad = tlc_rejection(r)
        if bad is not None:
            case = json.loads(lines[bad - 1])
            again, verdict = self.confirm(c, exe, case)
            if verdict is None:
                self.report(c, again, "the process died")
            elif verdict[0] is None:
                raise CheckError(f"rejection of case {bad} not reproduced")
            else:
                self.report(c, again, trace_of(verdict[1]))
            return
        outcomes = {}
        for l in lines:
            m = re.search(r'"st":"(\w+)"', l)
            k = m.group(1) if m else "?"
            outcomes[k] = outcomes.get(k, 0) + 1
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["traces_validated_against_impl"] += len(lines)
        self.cov["conformance_runs"].append({"driver": c["driver"], "trace_spec": c["trace"], "seed": seed,
                                             "cases": len(lines), "first_outcomes": outcomes,
                                             "distinct_states": r["distinct"], "states_generated": r["generated"]})
        if len(self.cov["samples"]) < 4:
            for l in lines[:2]:
                self.cov["samples"].append(l[:1500])
        os.remove(f)

    def drive_sharded(self, exe, seed, n, frm, f):
        """The cases of one recording, spread over several driver processes."""
        k = max(1, min(8, n // 25))
        cuts = [frm + n * i // k for i in range(k + 1)]
        parts = [f"{f}.{i}" for i in range(k)]
        with ThreadPoolExecutor(k) as ex:
            crashes = list(ex.map(lambda i: drive(exe, ["-seed", str(seed), "-n", str(cuts[i + 1] - cuts[i]), "-from",
                                                        str(cuts[i])], parts[i], self.scratch), range(k)))
        for x in crashes:
            if x:
                return x
        with open(f, "w") as o:
            for q in parts:
                o.write(open(q).read())
                os.remove(q)
        return None

    def generate(self, g, dst, seed):
        """Inputs from the specification: TLC prints one JSON record per behaviour."""
        cfg = g["cfg"] if self.tier == "quick" else g.get("thorough_cfg", g["cfg"])
        extra = [x.replace("$SEED", str(seed)) for x in g.get("extra", [])]
        r = tlc(g["module"], cfg, self.scratch, extra=extra, workers=g.get("workers", 1))
        if r["rc"] != 0:
            raise CheckError(f"generator {g['module']} failed:\n{r['out'][-3000:]}")
        seen, k = set(), 0
        with open(dst, "w") as o:
            for m in re.finditer(r'^"?GEN (.*?)"?$', r["out"], re.M):
                t = m.group(1).replace('\\"', '"')
                if t in seen:
                    continue
                seen.add(t)
                k += 1
                o.write(json.dumps({"id": k, "in": json.loads(t)}) + "\n")
        if not k:
            raise CheckError("generator printed no behaviour")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["design_runs"].append({"model": g["module"], "cfg": cfg, "behaviours_generated": k,
                                        "distinct_states": r["distinct"], "states_generated": r["generated"]})

    def report(self, c, case, why):
        d = os.path.join(HERE, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{c['driver']}-{self.seed}-{case.get('id', 0)}.json")
        with open(p, "w") as o:
            json.dump({"property": self.pid, "driver": c["driver"], "trace_spec": c["trace"], "case": case,
                       "rejection": why}, o, indent=1)
        self.violation = p
        print(why[:3000])

    def run(self):
        err = None
        try:
            confs = []
            for c in self.spec["conform"]:
                try:
                    build_driver(c["driver"], self.scratch)
                except CheckError as x:
                    # the harness does not fit the tree (a name it uses is gone): judge the same
                    # behaviour through the whole decoder instead
                    c = c.get("fallback", FALLBACK)
                    if c["driver"] in [k["driver"] for k in self.spec["conform"]]:
                        raise
                    self.cov["conformance_runs"].append({"driver_replaced": str(x)[:500], "by": c["driver"]})
                    build_driver(c["driver"], self.scratch)
                if c not in confs:
                    confs.append(c)
            # real-code runs first: a violation needs no design run
            for c in confs:
                exe = os.path.join(self.scratch, "drv_" + c["driver"])
                n = c["n"] if self.tier == "quick" else c.get("thorough_n", c["n"] * 4)
                self.conform(c, exe, self.seed, n)
                if self.violation:
                    break
            if not self.violation:
                self.design()
            if self.tier == "thorough" and not self.violation:
                budget = float(os.environ.get("VERIF_BUDGET", "420"))
                k = 1
                while time.time() - self.t0 < budget and not self.violation:
                    for c in confs:
                        if c.get("once") or (c.get("gen") and not c.get("reseed")):
                            continue
                        self.conform(c, os.path.join(self.scratch, "drv_" + c["driver"]), self.seed + 1000 * k,
                                     c.get("thorough_n", c["n"] * 4))
                        if self.violation:
                            break
                    if all(c.get("once") or (c.get("gen") and not c.get("reseed")) for c in confs):
                        break
                    k += 1
        except CheckError as x:
            err = x
        if not os.environ.get("VERIF_NOEVIDENCE"):
            self.evidence()
        if self.violation:
            print(f"VIOLATION property={self.pid} replay={self.violation}")
            return 1
        if err:
            print(f"CHECK-ERROR property={self.pid}: {err}")
            return 2
        print(f"OK property={self.pid} tier={self.tier} seed={self.seed} "
              f"traces={self.cov['traces_validated_against_impl']} states={self.cov['states']} "
              f"transitions={self.cov['transitions']} wall={time.time() - self.t0:.1f}s")
        return 0

    def evidence(self):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2),
              "violations": 1 if self.violation else 0,
              "assumptions": self.spec.get("assumptions", [])}
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none: the run stopped at its first recording)"]
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as o:
            json.dump(ev, o, indent=1)


def trace_of(out):
    m = re.search(r"(Error: .*?)(?:\n\d+ states generated|\Z)", out, re.S)
    return (m.group(1) if m else out)[:6000]


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print("usage: run.py <property>; properties:", " ".join(CHECKS))
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scratch = tempfile.mkdtemp(prefix="verif_")
    try:
        return Check(sys.argv[1], tier, seed, scratch).run()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
