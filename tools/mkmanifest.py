"""Write MANIFEST.json from properties.jsonl and the checks present."""
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from mc.engine import load_check  # noqa

NOTE = ('Exhaustive enumeration of all cases within the bounds stated in the '
        'evidence file (alphabet in "rule"), every one executed on the real '
        'code and compared step by step with an independent reference model; '
        'says nothing about values outside of the alphabet. Trusts numpy, '
        'scipy, obspy, obspyh5 and geographiclib.')
checks, na = [], []
for line in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(line)
    try:
        ck = load_check(p['id'])
    except SystemExit:
        na.append({'property': p['id'],
                   'reason': 'check not built yet (work in progress)'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bin/check %s quick' % p['id'],
        'thorough_cmd': 'bin/check %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': getattr(ck, 'technique',
                             'explicit-state exploration of the real code '
                             'against a reference model'),
        'level': ck.level,
        'level_note': getattr(ck, 'note', '') + NOTE})
m = {'version': 1,
     'setup_cmd': 'bin/setup',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed; all checks drive the public '
              'interface. Known findings: known_findings.txt'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
