#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl; the properties named as arguments are not claimed."""
import json, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
props = [json.loads(l) for l in open("properties.jsonl")]
pending = set(sys.argv[1:])
histories = ("Every operation history of the listed worlds (a few nodes, names and values) up to the depth in the evidence file is run "
             "on the real library and compared, step by step, with a reference model. Trusted: the model in mc/src/model.rs, and that "
             "worlds of this size show the defect; larger worlds, other names and values are not explored.")
inputs = ("Every input of the bounded spaces in the evidence file is run on the real library and compared with a reference model. "
          "Trusted: the model in mc/src, and that inputs of this size over this alphabet show the defect; others are not explored.")
note = {p: histories for p in "P01 P02 P03 P04 P05 P06 P07 P08 P19 P24 P25 P26".split()}
checks = []
for p in props:
    i = p["id"]
    if i in pending:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "explicit-state exhaustive exploration of the real implementation against a reference model",
        "level": "model_checking",
        "level_note": note.get(i, inputs),
    })
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not built yet"} for p in sorted(pending)]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
