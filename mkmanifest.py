"""Regenerate MANIFEST.json from the check modules present."""
import glob
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(line)['id'] for line in open(os.path.join(here, 'properties.jsonl'))]
have = {os.path.basename(p)[:-3] for p in glob.glob(os.path.join(here, 'checks', 'C*.py'))}
checks = []
for i in ids:
    if i not in have:
        continue
    checks.append({
        'property': i,
        'quick_cmd': '/opt/venv/bin/python check.py ' + i,
        'thorough_cmd': '/opt/venv/bin/python check.py ' + i,
        'technique': 'property-based testing with generated inputs and an independent oracle',
        'level': 'exploration',
        'level_note': 'Seeded random exploration of the stated input domain; failures are shrunk '
                      'to a replay file. No claim beyond the cases generated.',
        'evidence_file': 'evidence/' + i + '.json',
    })
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --selftest', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': 'no check has been built yet'}
                        for i in ids if i not in have],
     'notes': 'Checks import glmtools from /repo, so they always run the current working tree. '
              'Missing third-party packages are replaced by the stand-ins in stubs/.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
