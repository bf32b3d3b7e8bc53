#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and registry.py (run by hand after editing either)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = registry.VERIF
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.R.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": registry.NA.get(p["id"], "machinery for this property is not built yet; nothing is claimed")}); continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
      "technique": c.get("technique", registry.TECH), "level": c.get("level", "model_checking"), "level_note": "exhaustive over: " + c["bounds"] + ". " + c.get("note", registry.NOTE)})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
