#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = json.load(open("/verif/not_applicable.json"))
na = {x["property"] for x in NA}
T = ("deterministic simulation with fault injection: the repository's compiled code runs on a simulated OpenMP runtime, heap and file system; "
     "a seeded scheduler decides every interleaving and fault; ")
NOTE = json.load(open("/verif/notes.json"))
m = {"version": 1, "setup_cmd": "./run_check build", "checks": [], "not_applicable": NA}
for p in props:
    i = p["id"]
    if i in na:
        continue
    m["checks"].append({"property": i, "quick_cmd": "./run_check check %s --tier quick" % i, "thorough_cmd": "./run_check check %s --tier thorough" % i,
                        "technique": T + NOTE[i][0], "level": "exploration", "level_note": NOTE[i][1]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
