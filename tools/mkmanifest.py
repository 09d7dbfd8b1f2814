#!/opt/venv/bin/python
"""Writes MANIFEST.json from the registry of checks (harness/registry.py)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification checked with TLC; trace validation of the real code against it"
NOTE = ("The TLA+ specification %s states the documented behaviour; TLC judges every event recorded from the real code in /repo against it%s. "
        "Assurance: the property held on every recorded call (numbers in the evidence file); inputs are sampled (seeded by VERIF_SEED) from a generator that "
        "contains the special values, not enumerated. Trusted: TLC, the IEEE double primitives of Arith.java, the recorder in harness/.")
checks = []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if not c:
        continue
    mods = ", ".join(sorted(set(t["module"] + ".tla" for t in c["traces"])))
    dm = ""
    if c["models"]:
        dm = ", after exhaustively checking the design model(s) %s whose behaviours are replayed on the real code" % ", ".join(c.get("model_modules") or [m[0] for m in c["models"]])
    checks.append(dict(property=p["id"], quick_cmd="./check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough ./check.py " + p["id"],
                       evidence_file="evidence/%s.json" % p["id"], technique=TECH, level=c["level"], level_note=c.get("note") or NOTE % (mods, dm)))
na = [dict(property=p["id"], reason="no check has been built yet") for p in props if p["id"] not in registry.CHECKS]
m = dict(version=1, setup_cmd="javac -version && java -version && /opt/venv/bin/python -c 'import numpy, scipy, pandas'", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: everything is observed through the public API. Fixed defects and known findings: known_findings.json.")
with open(os.path.join(V, "MANIFEST.json"), "w") as fp:
    json.dump(m, fp, indent=1)
    fp.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
