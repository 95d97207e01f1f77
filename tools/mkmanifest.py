"""writes MANIFEST.json from the properties that have rules"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from sa.registry import RULES, EXPLAIN
from tools.claims import TECH, NOTE, NA, HOLD
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in RULES and i not in HOLD:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py --property %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
                       'technique': TECH.get(i, TECH['*']), 'level': 'other',
                       'level_note': NOTE.get(i, NOTE['*'])})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 -m compileall -q sa check.py >/dev/null 2>&1 || true',
           'checks': checks, 'not_applicable': na,
           'notes': 'Pure static analysis of /repo sources with the standard library of python3; no hooks in /repo.'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
