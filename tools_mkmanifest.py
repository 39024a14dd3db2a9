#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from props_cfg.py and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
from props_cfg import PROPS, NOT_APPLICABLE, NOTE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection: " + c["how"], "level": "exploration",
                       "level_note": c.get("note", NOTE)})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup",
           "hooks": {"guard": "none: all seams are link-level interposition, no line of /repo is changed for them", "enable": "g++ -fsanitize=thread (instrumentation only, linked with /verif/sim instead of libtsan)", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Replay a violation with: python3 check.py --replay <file> [-v].  Known and fixed defects: known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", len(checks), "not applicable", len(na))
