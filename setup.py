"""Builds the driver in all variants and the Java evaluators; compares those with their definitions."""
import os, shutil, sys, tempfile
from vlib import *
build_java()
for v in VARIANTS:
    log("building", v, build(v))
work = tempfile.mkdtemp(prefix="verif-setup-")
r = tlc("GeometryCheck.tla", "GeometryCheck.cfg", work, workers=JOBS)
shutil.rmtree(work, ignore_errors=True)
if r["inv"] or r["error"]:
    log(r["out"][-2000:])
    sys.exit(2)
log("geometry evaluators agree with their definitions:", r["states"], "states")
