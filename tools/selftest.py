#!/usr/bin/env python3
"""Setup: the machinery is interpreted, so only check that it is complete"""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = 'import numpy, pandas, tables, numba, scipy, yaml, astropy, matplotlib'
subprocess.check_call(['/opt/venv/bin/python', '-c', code])
for name in ('run.py', 'vlib/engine.py', 'known_findings.txt',
             'fakes/data/pulse_a.dat'):
    if not os.path.exists(os.path.join(HERE, name)):
        sys.exit('missing ' + name)
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('ok')
