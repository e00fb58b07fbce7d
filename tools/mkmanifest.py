#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS

TRUST = ("Trusted: TLC, the Java override that gives the specification IEEE-754 doubles (java/Float64.java), and the recording driver in harness/, "
         "which only calls exported API. Not exhaustive over real inputs: bounded design models, and sampled or enumerated programs on the real code.")
checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    c = CHECKS[p["id"]]
    ms = sorted({m["module"] for m in c.get("models", [])})
    gen = sorted({m["module"] for m in c.get("models", []) if m.get("gen")})
    note = (f"TLC exhausts the bounded design model{'s' if len(ms) > 1 else ''} {', '.join(ms)}. " if ms else "")
    note += (f"Every program or file that {', '.join(gen)} emits (a seeded sample where there are too many) is run on the real code. " if gen else "")
    note += (f"Every event recorded from the real code is checked by TLC against {c['trace']} and what it extends, including what must not change; "
             "falsified copies of the traces have to be rejected, or the check fails. ")
    if c.get("proofs"):
        note += f"What holds of its core for all sizes is proved with tlapm ({', '.join(c['proofs'])}). "
    if c.get("race"):
        note += "The driver is built with Go's race detector for the concurrent part. "
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                       evidence_file=f"evidence/{p['id']}.json", level="model_checking",
                       technique="TLA+ specification checked with TLC; " + ("TLC-generated programs replayed on the code; " if gen else "") + "TLC trace validation of recorded executions",
                       level_note=note + TRUST))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[],
         notes="No hooks: the driver is an ordinary Go program on the exported API, built against /repo's working tree through a replace directive, from a copy in a scratch directory. VERIF_SEED and VERIF_TIER select seed and depth. See DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
