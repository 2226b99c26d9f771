#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and
plan.py (run by hand after editing either)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
import plan
from properties import PROPS, NOT_APPLICABLE

out = []
for p in PROPS:
    if p['id'] in plan.PLAN or p['id'] in NOT_APPLICABLE:
        out.append(p)
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in out:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, sort_keys=True) + '\n')
checks = []
for p in out:
    if p['id'] not in plan.PLAN:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3 check.py run ' + p['id'],
        'thorough_cmd': 'python3 check.py run ' + p['id'],
        'technique': 'deterministic simulation with fault injection: ' +
                     plan.PLAN[p['id']].get('tech', 'seeded search over '
                                            'histories and faults'),
        'level': 'exploration',
        'level_note': plan.PLAN[p['id']].get('note', '') or
            'Seeded sampling of simulated runs, not proof; the real library '
            'code runs, the simulator owns disk, clock, network, hash order.',
    })
m = {'version': 1, 'setup_cmd': 'python3 check.py setup',
     'hooks': {'guard': 'none', 'enable': 'no hooks were needed: every seam '
               'is an injected object or a module attribute of the Python '
               'standard library replaced from outside', 'source_commits': []},
     'checks': checks,
     'not_applicable': [{'property': k, 'reason': v}
                        for k, v in sorted(NOT_APPLICABLE.items())]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(out), 'properties', len(checks), 'checks')
