#!/usr/bin/env python3
"""tools/reg.py ID TECHNIQUE NOTE: register a check and rewrite the manifest."""
import json, sys, subprocess
p = '/verif/tools/techniques.json'
d = json.load(open(p)); d[sys.argv[1]] = sys.argv[2:4]
json.dump(d, open(p, 'w'), indent=1)
subprocess.check_call(['python3', '/verif/tools/gen_manifest.py'])
