#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from ztsa/proptext.py and the check registry"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from ztsa import proptext, checks, notapp
with open(V + '/properties.jsonl', 'w') as f:
    for p in proptext.P:
        f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in proptext.P]
assert len(set(ids)) == len(ids)
cs = []
for i in ids:
    if i in checks.REGISTRY:
        c = checks.REGISTRY[i]
        assert i not in notapp.NA, i
        cs.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py %s --thorough' % i, technique=c.technique, level=c.level, level_note=c.note))
    else:
        assert i in notapp.NA, i
assert not (set(checks.REGISTRY) - set(ids)), set(checks.REGISTRY) - set(ids)
assert not (set(notapp.NA) - set(ids)), set(notapp.NA) - set(ids)
m = dict(version=1, setup_cmd='python3 -m compileall -q ztsa check.py', checks=cs, not_applicable=[dict(property=k, reason=v) for k, v in notapp.NA.items()],
         notes='All checks are static: /repo is compiled to LLVM IR with its own CMake flags and analysed by ztsa (see DESIGN.md); nothing of the library is executed.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import subprocess
try:
    import jsonschema
except ImportError:
    sys.exit(0)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in proptext.P:
    jsonschema.validate(p, s)
print(len(ids), 'properties,', len(cs), 'checks')
