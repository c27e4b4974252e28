#!/opt/venv/bin/python
"""Write MANIFEST.json from the check modules in checks/"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'fakes')]

checks, missing = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        missing.append(dict(property=pid, reason='check not built yet'))
        continue
    m = importlib.import_module('checks.' + pid.lower())
    checks.append(dict(
        property=pid,
        quick_cmd='python3 run.py ' + pid,
        thorough_cmd='VERIF_TIER=thorough python3 run.py ' + pid,
        technique=' '.join(getattr(m, 'TECHNIQUE', 'runtime monitoring: '
                           'random histories on the real code, judged '
                           'online by an executable model').split()),
        level=m.LEVEL,
        level_note='Held on the executions explored (see the evidence file); '
        + (' '.join(' '.join(a.split()) + ';' for a in
                    getattr(m, 'ASSUMPTIONS', [])).rstrip(';')
           or 'no assumptions beyond numpy/pandas') + '.',
    ))
manifest = dict(
    version=1, setup_cmd='python3 tools/selftest.py', checks=checks,
    not_applicable=missing,
    notes='run.py re-executes under /opt/venv/bin/python and imports the '
          'code from /repo; no hooks are added to /repo.',
)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'not claimed')
