#!/opt/venv/bin/python
"""Write DESIGN.md: design_head.md and one section per property"""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'fakes')]
exec(open(os.path.join(HERE, 'tools', 'design_why.py')).read())


def one_line(text):
    return ' '.join(text.split())


fixes = []
for line in open(os.path.join(HERE, 'known_findings.txt')):
    if line.startswith('fixed:'):
        _, prop, commit, *text = line.split()
        fixes.append('* {} `{}` {}'.format(
            prop.split('=')[1], commit, ' '.join(text)))
seeds = ['| change | property | needs |', '|---|---|---|']
for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    name = os.path.basename(os.path.dirname(path))
    meta = json.load(open(path))
    star = '*' if name in MISSED_FIRST else ''
    if name in NOT_CAUGHT:
        star = ' (not caught)'
    seeds.append('| {}{} | {} | {} |'.format(
        name, star, meta['property'], one_line(meta['needs'])))
head = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
head = head.replace('FIXES', '\n'.join(fixes)).replace(
    'SEEDS', '\n'.join(seeds)).replace('MUTATION', MUTATION)
out = [head.rstrip(), '']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    out += ['### {}: {}'.format(pid, p['title']), '']
    path = os.path.join(HERE, 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        out += ['No check yet.', '']
        continue
    m = importlib.import_module('checks.' + pid.lower())
    out += ['Monitored: ' + one_line(m.RULE), '']
    groups = []
    for g in m.__dict__.values():
        spec = getattr(g, '_group', None)
        if spec:
            groups.append('`{}` {}/{}'.format(
                g.__name__, spec['quick'], spec['thorough']))
    if groups:
        out += ['Bounds: cases quick/thorough: ' + ', '.join(groups) + '.', '']
    notes = '; '.join(one_line(a) for a in getattr(m, 'ASSUMPTIONS', []))
    if notes:
        out += ['Assumes: ' + notes + '.', '']
    out += ['Beyond tests: ' + one_line(WHY[pid]), '']
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out).rstrip() + '\n')
print(len(out), 'lines')
