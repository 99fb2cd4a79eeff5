#!/usr/bin/env python3
"""Write MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 lib/vb.py rel,asan,tsan', 'checks': [], 'not_applicable': []}
for i in ids:
    if i not in CHECKS:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check of it is finished yet')}); continue
    c = CHECKS[i]
    note = 'Exhaustive within: ' + c['bounds'] + '.'
    if c.get('assumptions'): note += ' Assumes: ' + '; '.join(c['assumptions']) + '.'
    m['checks'].append({'property': i, 'quick_cmd': 'python3 lib/run.py ' + i, 'thorough_cmd': 'python3 lib/run.py %s --thorough' % i,
                        'technique': c.get('technique', 'explicit-state exploration of the real code, every history up to a bound compared with an independent reference'), 'level': c['level'], 'level_note': note})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
