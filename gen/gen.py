#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from gen/properties.py and fw/registry.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "gen")]
from properties import P          # noqa
from fw.registry import CHECKS    # noqa

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in CHECKS:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"],
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "TLA+ specification checked with TLC; recorded executions of the code validated against it",
                       "level": "model_checking", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p["note"]})
m = {"version": 1, "setup_cmd": "python3 fw/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks mirror the working tree to a scratch directory, build it there and use its public interfaces."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
try:
    import jsonschema
except ImportError:
    sys.exit(0)
S = "/root/.vp/"
jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
for line in open(os.path.join(V, "properties.jsonl")):
    jsonschema.validate(json.loads(line), json.load(open(S + "PROPERTIES.schema.json")))
print(len(P), "properties", len(checks), "checks")
