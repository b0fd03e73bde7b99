#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
TECH = "bounded exhaustive exploration of the real code (stateless explicit-state model checking over choice vectors) against a reference model"
claimed = {}
for l in open(f"{here}/tools/claims.jsonl"):
    if l.strip():
        d = json.loads(l)
        claimed[d["property"]] = d
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        c = claimed[i]
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}", "evidence_file": f"evidence/{i}.json",
            "technique": c.get("technique", TECH), "level": "model_checking", "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./check setup",
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses only the public API of the crates", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md.  ./check <ID> --replay FILE replays a violation."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
