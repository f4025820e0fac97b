"""writes ../properties.jsonl and ../MANIFEST.json from props.py and registry.py"""
import json, os
from props import PROPS, NOT_APPLICABLE
from registry import CHECKS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in PROPS]
na = {i: r for i, r in NOT_APPLICABLE}
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'technique': c['technique'], 'level': 'other', 'level_note': c['note']})
    else:
        assert i in na, i
m = {'version': 1, 'setup_cmd': 'python3 analyzer/extract.py', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': na[i]} for i in ids if i in na],
     'notes': 'Every check is a static analysis of the MIR rustc produces for /repo; nothing of /repo is executed. See DESIGN.md.'}
assert not set(na) & set(CHECKS)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
