#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "exhaustive bounded enumeration of executions of the real code against a reference model"
T = json.load(open(os.path.join(here, 'tools/checks.json')))
checks = []
for c in T['checks']:
    i = c['property']
    checks.append({"property": i, "quick_cmd": f"bash /verif/run.sh {i} quick", "thorough_cmd": f"bash /verif/run.sh {i} thorough",
                   "technique": c.get('technique', ENUM), "level": c.get("level", "model_checking"), "level_note": c['note']})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "hooks": T['hooks'], "checks": checks, "not_applicable": T['not_applicable']}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
