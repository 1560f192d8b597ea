#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN, NOTES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i}",
            "thorough_cmd": f"bin/check {i} --thorough",
            "technique": "TLA+ specification checked with TLC; behaviours generated from it replayed into the crates"
                         + ("; recorded traces of the crates checked against it with TLC" if any(h.get("trace") for h in PLAN[i]["harness"]) else ""),
            "level": "model_checking",
            "level_note": NOTES.get(i, NOTES.get(i[0], "")),
        })
    else:
        na.append({"property": i, "reason": "no check yet (work in progress)"})
m = {
    "version": 1,
    "setup_cmd": "bin/setup",
    "hooks": {"guard": "none", "enable": "no hooks: the public interface of the crates suffices", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
