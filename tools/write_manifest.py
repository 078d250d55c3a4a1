#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the list of checks that exist"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'contract verification: symbolic execution of the LLVM IR of /repo with inferred-and-checked loop invariants; postconditions decided as polynomial identities'
CLAIM = {}
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
m = dict(version=1, setup_cmd='python3-vt /verif/lib/setup.py', checks=[], not_applicable=[], notes='All checks run python3-vt /verif/lib/run.py <id>; the library sources are compiled to LLVM IR and to a native library from /repo\'s working tree on every change (cached by content hash under /verif/build). No hooks in /repo are needed.')
for p in props:
    if p in CLAIM:
        note, level, tech = CLAIM[p]
        m['checks'].append(dict(property=p, quick_cmd='python3-vt /verif/lib/run.py ' + p, thorough_cmd='python3-vt /verif/lib/run.py ' + p, evidence_file='evidence/%s.json' % p, technique=tech or TECH, level=level, level_note=note))
    else: m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'no check has been built for this property yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
