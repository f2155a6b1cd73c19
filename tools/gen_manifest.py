#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = json.load(open(os.path.join(H, 'tools', 'techniques.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(H, 'checks', i.lower() + '.py')) and i in TECH:
        t, note = TECH[i]
        checks.append({"property": i,
                       "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1,
           "setup_cmd": "python3 lib/build.py",
           "checks": checks, "not_applicable": na,
           "notes": "Every check first rebuilds /repo's working tree out of tree in /verif/build (about 20 s from scratch, "
                    "incremental otherwise) and then runs lib/pbt.py. No instrumentation hooks are needed in /repo; "
                    "commits there are only 'fix:' repairs, listed in known_findings.txt."},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
