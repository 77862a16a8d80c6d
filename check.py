#!/usr/bin/env python3
"""check.py <property id>: decides one property on the current tree of /repo.  See DESIGN.md."""
import json
import os
import shutil
import sys
import tempfile
import time

from vlib import *

J = Job
QUICK = TIER != "thorough"


SMALL = {}


def small(work, cfg="SmallInputs.cfg"):
    """a file of all valid inputs of a small grid, enumerated by TLC, and their number"""
    if (work, cfg) not in SMALL:
        f = os.path.join(work, cfg + ".cases")
        c = enumerate_all("SmallInputs.tla", cfg, work)
        with open(f, "w") as h:
            h.writelines(s + "\n" for s in c)
        SMALL[work, cfg] = (f, len(c))
    return SMALL[work, cfg]


def smalls(mode, work, quick, thorough, big=0, **k):
    """jobs that run all small inputs, and have so many judged (suspicious ones always are)"""
    out = []
    for cfg, m in ([("SmallInputs.cfg", quick)] if QUICK else
                   [("SmallInputs.cfg", thorough), ("SmallInputs1.cfg", big), ("SmallInputs2.cfg", big)]):
        if m:
            f, n = small(work, cfg)
            out.append(J(mode, n, 1, m, cases=f, vary=1, **k))
    return out


# Every stage: jobs for the driver, and the specification that judges the records.

def results(cfg):
    def jobs(m, work):
        return [
            J("result", m(120000), 1, 700, scaled=1),
            J("result", m(100000), 1, 700),
            J("result", m(80000), 2, 500, scaled=1),
            J("result", m(80000), 2, 500),
            J("result", m(30000), 3, 150, scaled=1),
            J("result", m(30000), 3, 150),
            J("result", m(4000), 4, 10),
            J("result", m(60000), 2, 400, variant="checked"),
        ] + smalls("result", work, 20000, 20000, 30000) + smalls("result", work, 500, 20000, variant="checked")
    return (jobs, "CheckResults.tla", cfg)


def traces(cfg):
    def jobs(m, work):
        return [
            J("trace", m(30000), 1, 220, scaled=1),
            J("trace", m(40000), 1, 220),
            J("trace", m(40000), 1, 220),
            J("trace", m(20000), 2, 100, scaled=1),
            J("trace", m(20000), 2, 100),
            J("trace", m(20000), 2, 100),
            J("trace", m(4000), 3, 8),
            J("trace", m(4000), 4, 2, limit=100000),
            J("trace", m(20000), 1, 60, variant="checked"),
        ] + smalls("trace", work, 400, 20000, 1500)
    return (jobs, "SweepTrace.tla", cfg)


def answers(obs, cfg):
    """traces that also show what the library answers to an observer's questions"""
    def jobs(m, work):
        k = dict(obs=obs)
        return [
            J("trace", m(20000), 1, 220, scaled=1, **k),
            J("trace", m(20000), 1, 220, **k),
            J("trace", m(20000), 1, 220, **k),
            J("trace", m(15000), 2, 90, scaled=1, **k),
            J("trace", m(15000), 2, 90, **k),
            J("trace", m(15000), 2, 90, **k),
            J("trace", m(3000), 3, 6, **k),
            J("trace", m(3000), 4, 1, limit=100000, **k),
            J("trace", m(15000), 1, 60, variant="f32", **k),
        ] + smalls("trace", work, 200, 5000, 1000, **k)
    return (jobs, "SweepTrace.tla", cfg)


def parts(cfg, obs=0, variant=None):
    """parts of the traces of large runs"""
    def jobs(m, work):
        k = dict(obs=obs, timeout=120000)
        if variant:
            k["variant"] = variant
        n = 12 if QUICK else 96
        return [J("part", n, 1, 100, most=3000 if QUICK else 6000, limit=12 if QUICK else 24, **k),
                J("part", 2 if QUICK else 8, 1, 100, most=20000 if QUICK else 70000, last=1, **k)] + (
            [] if QUICK else [J("part", 96, 1, 100, most=1500, limit=60, **k)])
    return (jobs, "SweepPart.tla", cfg)


def stores(cfg):
    def jobs(m, work):
        return [
            J("store", m(60000), 1, 400, scaled=1),
            J("store", m(60000), 1, 400),
            J("store", m(40000), 2, 250, scaled=1),
            J("store", m(40000), 2, 250),
            J("store", m(10000), 3, 40),
            J("store", m(2000), 4, 3),
            J("store", m(40000), 1, 200, variant="f32"),
            J("store", m(40000), 1, 200, variant="checked"),
        ]
    return (jobs, "PointStore.tla", cfg)


def big_stores(cfg):
    def jobs(m, work):
        return [J("store", 8 if QUICK else 32, 1, 100, most=2000 if QUICK else 20000, timeout=120000),
                J("store", 1 if QUICK else 2, 1, 100, most=100000, timeout=120000),
                J("store", 2 if QUICK else 8, 1, 100, most=1000, variant="f32", timeout=120000)]
    return (jobs, "PointStoreBig.tla", cfg)


def variants(which, cfg):
    def jobs(m, work):
        k = dict(which=which)
        return [
            J("variants", m(50000), 1, 350, scaled=1, **k),
            J("variants", m(50000), 1, 350, **k),
            J("variants", m(30000), 2, 250, scaled=1, **k),
            J("variants", m(30000), 2, 250, **k),
            J("variants", m(30000), 2, 250, **k),
            J("variants", m(8000), 3, 40, **k),
            J("variants", m(1500), 4, 3, **k),
            J("variants", m(20000), 1, 150, variant="f32", **k),
            J("variants", 8, 1, 100, most=20000 if QUICK else 60000, timeout=120000, **k),
        ] + smalls("variants", work, 500, 20000, 1000, **k)
    return (jobs, "Variants.tla", cfg)


def calls(cfg):
    def jobs(m, work):
        f = os.path.join(work, "calls")
        seqs = simulate("BuilderGen.tla", "BuilderGen.cfg", work, m(1000), 30, SEED)
        with open(f, "w") as h:
            h.writelines(s + "\n" for s in seqs)
        return [
            J("api", len(seqs), 1, len(seqs), cases=f),
            J("api", m(30000), 1, 200),
            J("api", m(30000), 1, 200),
            J("api", m(20000), 2, 100),
            J("api", m(20000), 2, 100),
            J("api", m(4000), 3, 12),
            J("api", m(20000), 1, 60, variant="f32"),
            J("api", m(20000), 1, 60, variant="checked"),
            J("api", 8, 1, 100, most=8000 if QUICK else 60000, timeout=120000),
            J("api", 1, 1, 1, most=100000, timeout=120000),
        ]
    return (jobs, "BuilderTrace.tla", cfg)


def files(cfg):
    def jobs(m, work):
        out = []
        for v in ("f64", "f32"):
            out += [
                J("loader", 19531, 1, m(5000), variant=v, dir=work, all=1),
                J("loader", m(20000), 1, m(1000), variant=v, dir=work),
                J("loader", m(20000), 2, m(500), variant=v, dir=work),
                J("loader", m(2000), 3, m(20), variant=v, dir=work),
                J("loader", m(500), 4, m(5), variant=v, dir=work),
                J("loader", 8, 1, 100, variant=v, dir=work, most=3000 if QUICK else 20000, timeout=120000),
            ]
        return out
    return (jobs, "LoaderTrace.tla", cfg)


def single(cfg):
    def jobs(m, work):
        k = dict(variant="f32", join="f64")
        return [
            J("result", m(100000), 1, 500, scaled=1, **k),
            J("result", m(100000), 1, 500, **k),
            J("result", m(80000), 2, 400, scaled=1, **k),
            J("result", m(80000), 2, 400, **k),
            J("result", m(30000), 3, 100, **k),
            J("result", m(4000), 4, 8, **k),
            J("result", m(50000), 1, 300, variant="checked32", join="f64"),
            J("result", m(50000), 2, 300, variant="checked32", join="f64"),
        ] + smalls("result", work, 3000, 20000, 20000, **k)
    return (jobs, "CheckResults.tla", cfg)


def single_traces(cfg):
    def jobs(m, work):
        return [J("trace", m(20000), lv, n, variant="f32", scaled=s)
                for lv, n, s in ((1, 60, 0), (1, 60, 1), (1, 60, 0), (2, 30, 0), (2, 30, 1), (2, 30, 0))]
    return (jobs, "SweepTrace.tla", cfg)


def bigs(cfg):
    """few, but large: the sizes are 70 000, 3 000, 20 000, ... in turn, at most `most`"""
    def jobs(m, work):
        k = dict(most=100000, timeout=120000)
        single = dict(variant="f32", **k)
        if cfg == "B_C14.cfg":
            out = [J("big", 16, 1, 100, **single)]
        else:
            out = [J("big", 24, 1, 100, **k)]
        if cfg == "B_C06.cfg":
            out += [J("big", 8, 1, 100, **single), J("big", 8, 1, 100, variant="checked", most=1500, timeout=120000),
                    J("big", 32, 1, 100, variant="plain", most=12000 if QUICK else 100000, timeout=120000)]
        if not QUICK:
            out += [J("big", 64, 1, 100, most=20000, timeout=120000)]
        return out
    return (jobs, "BigResults.tla", cfg)


SWEEPMC = [("SweepMC.tla", "SweepMC.cfg"), ("SweepMCHoles.tla", "SweepMCHoles.cfg")]
if not QUICK:
    SWEEPMC += [("SweepMC.tla", "SweepMC%s.cfg" % k) for k in ("Steiner", "Five", "Wide")] + [("SweepMCHoles.tla", "SweepMCMore.cfg")]

CHECKS = {
    "C01": ([results("R_C01.cfg"), bigs("B_C01.cfg")], SWEEPMC),
    "C02": ([results("R_C02.cfg"), bigs("B_C02.cfg")], SWEEPMC),
    "C03": ([results("R_C03.cfg"), bigs("B_C03.cfg")], SWEEPMC),
    "C04": ([results("R_C04.cfg"), bigs("B_C04.cfg")], SWEEPMC),
    "C05": ([calls("BT_C05.cfg")], []),
    "C06": ([results("R_C06.cfg"), bigs("B_C06.cfg")], SWEEPMC),
    "C07": ([traces("ST_C07.cfg"), parts("SP_C07.cfg")], SWEEPMC),
    "C08": ([traces("ST_C08.cfg"), parts("SP_C08.cfg")], SWEEPMC),
    "C09": ([traces("ST_C09.cfg"), parts("SP_C09.cfg")], SWEEPMC),
    "C10": ([traces("ST_C10.cfg"), parts("SP_C10.cfg")], SWEEPMC),
    "C11": ([variants(11, "V_C11.cfg")], []),
    "C12": ([variants(12, "V_C12.cfg")], []),
    "C13": ([files("LT_C13.cfg")], []),
    "C14": ([single("R_C14.cfg"), single_traces("ST_All.cfg"), parts("SP_All.cfg", 0, "f32"), bigs("B_C14.cfg")], []),
    "C15": ([variants(15, "V_C15.cfg"), calls("BT_C15.cfg")], []),
    "C16": ([calls("BT_C16.cfg")], []),
    "C17": ([traces("ST_C17.cfg"), parts("SP_C17.cfg")], SWEEPMC),
    "C18": ([traces("ST_C18.cfg"), parts("SP_C18.cfg")], SWEEPMC),
    "C19": ([answers(19, "ST_C19.cfg"), parts("SP_C19.cfg", 19)], SWEEPMC),
    "C20": ([answers(20, "ST_C20.cfg"), parts("SP_C20.cfg", 20)], SWEEPMC),
    "C21": ([stores("PS_C21.cfg"), big_stores("PB_C21.cfg")], []),
    "C22": ([answers(22, "ST_C22.cfg"), parts("SP_C22.cfg", 22)], SWEEPMC),
}


# what the driver has to read of the library for a check, beyond the results (features of the driver)
READS = {"C07": "trace", "C08": "trace", "C09": "trace", "C10": "trace", "C14": "trace", "C17": "trace", "C18": "trace",
         "C19": "ask", "C20": "ask", "C21": "store", "C22": "query"}


def sample_of(rec):
    """the record, long lists cut (some records have tens of thousands of points)"""
    def cut(v, n):
        if isinstance(v, dict):
            return {k: cut(x, 3 if k in ("ev", "ld", "v", "sn") else n) for k, x in v.items()}
        if isinstance(v, list):
            return [cut(x, n) for x in v[:n]] + (["%d in all" % len(v)] if len(v) > n else [])
        return v
    return cut(json.loads(rec), 60)


def main():
    prop = sys.argv[1]
    stages, mc = CHECKS[prop]
    FEATURES[:] = READS[prop].split() if prop in READS else []
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        build_java()
        mult, budget = (0.4, 25) if QUICK else (6, 300)
        design, viol, samples = {}, [], []
        tot = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "executions": 0, "executions_sent_first": 0}
        for mod, cfg in mc:
            r = tlc(mod, cfg, work, workers=JOBS, heap="6g")
            if r["inv"] or r["error"]:
                raise ToolError("the design model %s %s fails: %s" % (mod, cfg, r["out"][-2000:]))
            design[cfg] = {"states": r["states"], "transitions": r["generated"]}
            tot["states"] += r["states"]
            tot["transitions"] += r["generated"]
        t1 = time.time()
        for jobs, module, cfg in stages:
            js = jobs(lambda n: int(n * mult), work)
            if not QUICK:
                for j in js:
                    if "vary" not in j.kw:
                        j.sample *= 8  # of the big ones all are judged already
            t2 = time.time()
            recs, st = drive(js, SEED, work, budget)
            t3 = time.time()
            v, cnt = judge(recs, module, cfg, work)
            log("%s %s: design %.1fs drive %.1fs tlc %.1fs  %s %s" % (prop, cfg, t1 - t0, t3 - t2, time.time() - t3, st, cnt))
            viol += v
            tot["states"] += cnt["states"]
            tot["transitions"] += cnt["generated"]
            tot["traces_validated_against_impl"] += len(recs)
            tot["executions"] += st["executed"]
            tot["executions_sent_first"] += st["suspicious"] + st["dead"]
            samples += [sample_of(r[0]) for r in recs[-1:] + recs[:1]]
        code = report(prop, viol)
        evidence(prop, "model_checking", dict(tot, design_models=design, samples=samples), [], time.time() - t0, len(viol))
        return code
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        log("ERROR: %s" % e)
        sys.exit(2)
