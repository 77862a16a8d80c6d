"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = "TLA+ trace validation: executions of the real sweep, recorded through the public Observer, are replayed against the state machine Sweep.tla by TLC, which also explores the machine exhaustively on small inputs"
RESULT = "TLA+ specification of the result evaluated by TLC on recorded calls of the real library; the algorithm's state machine is model checked exhaustively against the same specification"
NOTE = "Exhaustive for the design on a small grid; for the code: every recorded execution (thousands judged by TLC, selected from up to millions run; those an integer pre-check finds suspicious always included). Trusts TLC, the Java evaluators of the exact predicates (themselves compared with their TLA+ definitions), and the recorder."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
tech = {}
for c in "C01 C02 C03 C04 C06 C14".split(): tech[c] = RESULT
for c in "C07 C08 C09 C10 C17 C18 C19 C20 C22".split(): tech[c] = TRACE
tech["C11"] = tech["C12"] = "TLA+ relation between calls (Variants.tla), evaluated by TLC on recorded groups of calls of the real library whose inputs the relation connects"
for c in "C05 C15 C16".split(): tech[c] = "Model-based testing both ways: TLC generates call sequences from BuilderApi.tla, the driver replays them on the real library, and TLC validates the recorded outcomes against the specification"
tech["C21"] = "TLA+ specification of the point store as a function of the input (PointStore.tla), evaluated by TLC on what an observer of the real library reads at the start and at the end of a run"
tech["C13"] = "TLA+ grammar of files (FileFormat.tla): the driver enumerates and damages files and loads them with the real loader, TLC checks every outcome against the specification (LoaderTrace.tla)"
checks = [dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
               evidence_file="evidence/%s.json" % p["id"], technique=tech[p["id"]], level="model_checking", level_note=NOTE) for p in props]
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
