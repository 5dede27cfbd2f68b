#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module in pv/props."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.techs import TECH
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "pv", "props", i.lower() + ".py")):
        t, note = TECH[i]
        checks.append(dict(property=i, quick_cmd=f"./run.py {i}", thorough_cmd=f"env VERIF_TIER=thorough ./run.py {i}", evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
