#!/usr/bin/env python3
"""regenerates MANIFEST.json from props.py and properties.jsonl"""
import json, os
from props import PROPS
R = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
checks = [{
    "property": i,
    "quick_cmd": "python3 check.py %s quick" % i,
    "thorough_cmd": "python3 check.py %s thorough" % i,
    "technique": PROPS[i]["technique"],
    "level": "exploration",
    "level_note": PROPS[i]["note"],
} for i in ids if i in PROPS]
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS]
m = {
    "version": 1,
    "setup_cmd": "python3 setup_verif.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Runtime monitoring on a simulated page; see DESIGN.md.",
}
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(na), "not applicable")
