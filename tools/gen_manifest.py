#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p,
               technique=CHECKS[p]["technique"], level=CHECKS[p].get("level", "exploration"), level_note=CHECKS[p]["note"])
          for p in props if p in CHECKS]
na = [dict(property=p, reason="check under construction") for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the monitors observe the public API, the sockets of the real programs and the libc boundary."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
