#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the registry."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
from registry import HARNESS, TECHNIQUE
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in HARNESS:
        m["checks"].append({
            "property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "property-based testing: " + TECHNIQUE.get(i, "generated inputs against an independent oracle, shrunk to a replay file"),
            "level": "exploration",
            "level_note": "Seeded generated-input search over the laws of harness/%s in a plain and a sanitizer build; failing cases are shrunk to a replay file. Not a proof: the number of generated and non-trivial cases is in the evidence file." % HARNESS[i]["file"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check has been built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
