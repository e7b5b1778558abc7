#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the registry of analyses and the list of properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lnsa import registry
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.META:
        m = registry.META[i]
        checks.append({
            "property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": m.get("technique", "static analysis: abstract interpretation of the source with a value-numbering domain"),
            "level": "other",
            "level_note": m.get("note", "") or ("Decided from the parsed source on every run. " + m["rule"] + ". Assumes: " + ("; ".join(m["assumptions"]) or "nothing beyond the analyser and its model of numpy") +
                                                 ". Trusts the analyser (lnsa/) and its models of Python built-ins and numpy. Constructs it cannot follow are listed as undecided in the evidence and raise no alarm."),
        })
    else:
        na.append({"property": i, "reason": registry.NA[i]})
m = {"version": 1, "setup_cmd": "python3-vt -m compileall -q lnsa || true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
