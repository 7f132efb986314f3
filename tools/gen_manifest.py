#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from plan import PLAN
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"python3 check.py {p} --tier thorough",
                      technique=PLAN[p].technique, level=PLAN[p].level, level_note=PLAN[p].note.strip()) for p in props if p in PLAN],
         not_applicable=[dict(property=p, reason=NA.get(p, "no check yet")) for p in props if p not in PLAN],
         notes="No hooks in /repo: every monitor sits at the public API. Repairs of genuine defects are the fix: commits listed in known_findings.txt.")
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
