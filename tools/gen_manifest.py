#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from plan import CHECKS, NOTE
m = {"version": 1, "setup_cmd": "./check --setup",
     "checks": [{"property": p, "quick_cmd": "./check %s --tier quick" % p, "thorough_cmd": "./check %s --tier thorough" % p,
                 "technique": c.technique, "level": c.level, "level_note": c.note or NOTE} for p, c in sorted(CHECKS.items())],
     "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]))
