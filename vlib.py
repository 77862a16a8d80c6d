"""Shared machinery of the checks: build the driver from /repo, run it, hand the recorded
executions to TLC, and report."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar:" + os.path.join(BUILD, "java")
NCPU = os.cpu_count() or 4
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
JOBS = min(8, NCPU)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building

VARIANTS = {
    "f64": (["--release"], "f64", "release"),
    "f32": (["--release", "--features", "f32"], "f32", "release"),
    "plain": (["--profile", "plain"], "f64", "plain"),
    "checked": (["--profile", "checked"], "f64", "checked"),
    "checked32": (["--profile", "checked", "--features", "f32"], "f32", "checked"),
}


BUILT = {}
FEATURES = []  # of the driver, beyond those of the variant


def build_java():
    out = os.path.join(BUILD, "java")
    src = os.path.join(SPEC, "java", "ExactGeometryOverrides.java")
    cls = os.path.join(out, "ExactGeometryOverrides.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(out, exist_ok=True)
    subprocess.run(["javac", "-cp", CP, "-d", out, src], check=True)


def build(variant):
    """Builds the driver against the current working tree of /repo.  cargo judges staleness by
    time stamps, which copies of a tree need not respect: the crate is rebuilt by every check."""
    if variant in BUILT:
        return BUILT[variant]
    flags, target, profile = VARIANTS[variant]
    flags = flags + (["--features", ",".join(FEATURES)] if FEATURES else [])
    tdir = os.path.join(BUILD, target)
    fp = os.path.join(tdir, profile, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("poly2tri") or d.startswith("drv"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + flags, cwd=os.path.join(VERIF, "driver"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("driver does not build (%s):\n%s" % (variant, r.stdout[-3000:]))
    BUILT[variant] = os.path.join(tdir, profile, "drv")
    return BUILT[variant]


# ------------------------------------------------------------------ driving

class Job:
    """one driver process"""

    def __init__(self, mode, n, level=1, sample=100, variant="f64", scaled=0, timeout=None, join=None, **kw):
        self.mode, self.n, self.level, self.sample = mode, n, level, sample
        self.variant, self.scaled, self.kw = variant, scaled, kw
        self.timeout = timeout
        self.join = join  # a second build to run the same cases in


def drive(jobs, seed, work, budget_s):
    """Runs the jobs on all cores; returns (records as lines, statistics)."""
    bins = {}
    for j in jobs:
        for v in (j.variant, j.join):
            if v and v not in bins:
                bins[v] = build(v)

    def one(ix):
        j = jobs[ix]
        out = os.path.join(work, "rec%d.ndjson" % ix)
        cmd = [bins[j.variant], j.mode, "--seed", str(seed * 1000 + ix), "--from", "0", "--to", str(j.n), "--level", str(j.level),
               "--sample", str(j.sample), "--scaled", str(j.scaled), "--out", out, "--budget", str(int(budget_s * 1000))]
        if j.timeout:
            cmd += ["--timeout", str(j.timeout)]
        for k, v in j.kw.items():
            cmd += ["--" + k, str(v)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget_s * 3 + 600)
        if r.returncode != 0:
            raise ToolError("driver failed: %s\n%s" % (" ".join(cmd), r.stderr[-2000:]))
        st = json.loads(r.stdout.strip().splitlines()[-1])
        recs = []
        with open(out) as f:
            for line in f:
                recs.append((line.rstrip("\n"), " ".join(cmd[1:])))
        os.remove(out)
        if j.join:
            recs = join(j, recs, ix, cmd)
        return recs, st

    def join(j, recs, ix, cmd):
        """adds to each record what the other build makes of the same case"""
        out = os.path.join(work, "rec%dj.ndjson" % ix)
        ids = os.path.join(work, "ids%d" % ix)
        rs = [json.loads(r[0]) for r in recs]
        with open(ids, "w") as f:
            f.writelines("%d\n" % r["id"] for r in rs)
        c = [bins[j.join]] + cmd[1:] + ["--f32", "1", "--ids", ids]
        for k, v in (("--to", len(rs)), ("--sample", len(rs) + 1), ("--out", out)):
            c[c.index(k) + 1] = str(v)
        r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=budget_s * 3 + 600)
        if r.returncode != 0:
            raise ToolError("driver failed: %s\n%s" % (" ".join(c), r.stderr[-2000:]))
        other = {}
        with open(out) as f:
            for line in f:
                o = json.loads(line)
                other[o["id"]] = o
        os.remove(out)
        for k, o in enumerate(rs):
            w = other.get(k)
            o["wo"], o["w"] = (w["o"], w["t"]) if w else ("none", [])
            if w and (w["p"] != o["p"] or w["l"] != o["l"]):
                raise ToolError("the builds were not given the same case")
        return [(json.dumps(o, separators=(",", ":")), recs[k][1]) for k, o in enumerate(rs)]

    recs, tot = [], {}
    with ThreadPoolExecutor(JOBS) as ex:
        for r, st in ex.map(one, range(len(jobs))):
            recs += r
            for k, v in st.items():
                tot[k] = tot.get(k, 0) + v
    return recs, tot


# ------------------------------------------------------------------ TLC

def simulate(module, cfg, work, num, depth, seed):
    """Behaviours printed by a module that TLC simulates, one per line."""
    r = tlc(module, cfg, work, simulate="num=%d" % num, extra=["-depth", str(depth), "-seed", str(seed)], timeout=300)
    if r["rc"] != 0:
        raise ToolError("simulation of %s: %s" % (module, r["out"][-2000:]))
    out = []
    for line in r["out"].splitlines():
        if line.startswith('"<<') and line.endswith('"'):
            if not out or out[-1] != line[1:-1]:
                out.append(line[1:-1])
    if not out:
        raise ToolError("simulation of %s printed nothing" % module)
    return out


def enumerate_all(module, cfg, work):
    """All the cases a module prints, in a fixed order."""
    r = tlc(module, cfg, work, workers=JOBS, heap="6g")
    if r["rc"] != 0:
        raise ToolError("enumeration of %s: %s" % (module, r["out"][-2000:]))
    return sorted({l[1:-1] for l in r["out"].splitlines() if l.startswith('"<<') and l.endswith('"')})


def tlc(module, cfg, work, env=None, workers=1, heap="2g", timeout=840, extra=(), simulate=None):
    """One run of TLC; returns a dictionary with what it said."""
    meta = tempfile.mkdtemp(dir=work)
    cmd = ["java", "-Xss16m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:ExactGeometryOverrides",
           "-Djava.io.tmpdir=" + work, "-cp", CP, "tlc2.TLC", "-noTE", "-workers", str(workers), "-metadir", meta]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + ["-config", cfg, module]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
    shutil.rmtree(meta, ignore_errors=True)
    res = {"rc": rc, "out": out, "s": time.time() - t0, "states": 0, "generated": 0, "inv": None, "state": "", "error": None}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        res["generated"], res["states"] = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"Error: (?:Invariant|Action property) (\w+) is violated|Error: Temporal properties were violated", out)
    if m:
        res["inv"] = m.group(1) or "temporal"
        res["state"] = out[m.start():]
    elif rc != 0:
        e0 = out.find("Error:")
        res["error"] = out[e0:e0 + 3000] if e0 >= 0 else out[-2000:]
    return res


def judge(recs, module, cfg, work, shards=None, timeout=800, key=r"\b(?:i|tid) = (\d+)"):
    """Gives every record to TLC (in several processes).  Returns (violations, counts); a violation
    is (record, driver command, invariant, TLC's last state)."""
    n = shards or JOBS
    order = sorted(recs, key=lambda r: -len(r[0]))
    parts = [order[k::n] for k in range(n)]
    parts = [p for p in parts if p]

    def one(ix):
        f = os.path.join(work, "batch%d-%s.ndjson" % (ix, cfg))
        with open(f, "w") as h:
            h.writelines(r[0] + "\n" for r in parts[ix])
        r = tlc(module, cfg, work, {"BATCH": f}, timeout=timeout)
        os.remove(f)
        return r

    viol, states, gen = [], 0, 0
    with ThreadPoolExecutor(n) as ex:
        results = list(ex.map(one, range(len(parts))))
    for ix, r in enumerate(results):
        states += r["states"]
        gen += r["generated"]
        if r["inv"] == "GeneratorValid":
            raise ToolError("a generated input is not valid: " + r["state"][-1500:])
        if r["inv"] or (r["error"] and "evaluat" in r["error"].lower()):
            m = re.findall(key, r["state"] or r["error"])
            rec = parts[ix][int(m[-1]) - 1] if m else (None, "")
            if r["inv"] is None and rec[0] is None:
                raise ToolError(r["error"])
            viol.append((rec[0], rec[1], r["inv"] or "outside of the specification", (r["state"] or r["error"])[-4000:]))
        elif r["error"]:
            raise ToolError("TLC: " + r["error"])
    return viol, {"states": states, "generated": gen}


# ------------------------------------------------------------------ reporting

def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) (\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def report(prop, viol):
    """Prints the outcome of a check, returns the exit code."""
    rd = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rd, exist_ok=True)
    for k, (rec, cmd, inv, state) in enumerate(viol):
        path = os.path.join(rd, "%s-%d.json" % (prop, k))
        with open(path, "w") as f:
            json.dump({"property": prop, "invariant": inv, "driver": cmd, "record": json.loads(rec) if rec else None, "tlc": state}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if viol else 0


def evidence(prop, level, coverage, assumptions, wall, nviol):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 2), "violations": nviol}, f, indent=1)
