"""C49: outcomes do not depend on the environment of the process"""
import json
import os
import subprocess
import sys

import numpy as np

from vlib.engine import Inconclusive, group

LEVEL = 'exploration'
TECHNIQUE = """runtime monitoring: recorded outcomes of the same work in
processes of different environments, compared offline"""
RULE = """The same generated inputs go through readers, reducers, both DL1
extractions, configuration, statistics, mappings, calibrations, fits and plots
in processes that differ in hash seed, time zone, locale, text encoding,
number of threads, working directory, home, optimisation level, file creation
mask, plotting backend and what ran before; every recorded outcome (values,
types, order of columns and entries) must be the same. Distinct by inputs and
environment."""
ASSUMPTIONS = ["""floating point results up to 1e-6 relative: the number of
threads may change the order of sums""",
               "only the C and C.UTF-8 locales are installed"]
REQUIRE = ['processes', 'outcomes', 'numbers']
WORKERS = dict(quick=2, thorough=4)
CASE_LIMIT = 600

ENVS = [
    ('other hash seed', dict(PYTHONHASHSEED='4242')),
    ('half-hour zone', dict(TZ='XST-5:30', PYTHONHASHSEED='7')),
    ('summer time', dict(TZ='AAA8BBB,M3.2.0,M11.1.0')),
    ('plain C, no UTF-8', dict(LC_ALL='C', LANG='C', PYTHONUTF8='0',
                               PYTHONCOERCECLOCALE='0',
                               PYTHONHASHSEED='99')),
    ('one thread', dict(NUMBA_NUM_THREADS='1', OMP_NUM_THREADS='1')),
    ('eight threads', dict(NUMBA_NUM_THREADS='8', OMP_NUM_THREADS='8',
                           OPENBLAS_NUM_THREADS='8')),
    ('optimised', dict(PYTHONOPTIMIZE='1', PYTHONHASHSEED='31337')),
    ('date line', dict(TZ='YST+12', MPLBACKEND='pdf')),
    ('elsewhere', dict(HOME='/nonexistent', TZ='ZST-14', COLUMNS='20',
                       PYTHONHASHSEED='5')),
]


def setup():
    import CHECLabPy.core.chain  # noqa


def prepare(c, d):
    """Inputs of the probe, written here once"""
    from vlib import files, reduce
    rng = c.rng
    run = files.random_run(rng, 3 + 7, camera='1.1.0', n_modules=1, bad=.2)
    # seconds about changes of the clock and far apart
    run['CPU_S'] = np.sort(rng.choice(
        [1.4e9, 1509843600, 1509843599, 1489914000, 1522544400, 1.58e9,
         1583020800, 951782400, 86399, 1609459199, 1483228799, 1552186800],
        10))
    files.write_tio(os.path.join(d, 'Run7_r1.tio'), run)
    sim = files.random_sim(rng, 2, n_samples=32)
    files.write_simtel(os.path.join(d, 'gamma.simtel.gz'), sim)
    with open(os.path.join(d, 'cfg.yml'), 'w') as f:
        f.write('waveform_max: True\nt_averagewf: True\nt_event: True\n')
    with open(os.path.join(d, 'fit.yml'), 'w') as f:
        f.write('n_bins: 30\ninitial: {lambda_: 3.5}\n')
    names = ['Run{}_r{}.tio'.format(int(a), int(b)) for a, b in zip(
        rng.integers(0, 2000, 12), rng.integers(0, 2, 12))]
    lines = ['#run pe_expected pe_expected_err']
    for k in rng.permutation(9):
        lines.append('{} {:.3f} {:.3f}'.format(
            int(k) * 7, rng.uniform(1, 90), rng.uniform(0, 2)))
    with open(os.path.join(d, 'runlist.txt'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with open(os.path.join(d, 'hv.cfg'), 'w') as f:
        for tm in range(4):
            f.write('M:{}/F/S:{}|HV={}\n'.format(tm, tm, 40 + tm))
    n = 60
    np.savez(os.path.join(d, 'arrays.npz'),
             events=np.stack([reduce.event(rng, 64)[0] for _ in range(2)]),
             charges=np.stack([np.stack([
                 rng.integers(0, 5, n).astype(float),
                 rng.integers(0, 4, n).astype(float),
                 rng.normal(3, 1, n)]) for _ in range(3)]),
             spe=np.stack([rng.normal(25. * rng.poisson(1, 800), 8)
                           for _ in range(2)]))
    with open(os.path.join(d, 'params.json'), 'w') as f:
        json.dump(dict(names=names, real_fit=bool(c.thorough)), f)


def probe(inputs, out, env, cwd, umask=None):
    e = dict(os.environ)
    e.update(env)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return subprocess.Popen(
        [sys.executable, os.path.join(here, 'vlib', 'envprobe.py'), inputs,
         out], env=e, cwd=cwd, stdout=subprocess.DEVNULL,
        stderr=subprocess.PIPE,
        preexec_fn=None if umask is None else lambda: os.umask(umask))


def differences(a, b, where='', n=None):
    """First difference; numbers up to rounding"""
    if n is not None:
        n[0] += 1
    if isinstance(a, float) and isinstance(b, (int, float)) or \
            isinstance(b, float) and isinstance(a, (int, float)):
        if a != b and not (a != a and b != b) and \
                not np.isclose(a, b, rtol=1e-6, atol=1e-9):
            return '{}: {!r} and {!r}'.format(where, a, b)
        return None
    if type(a) is not type(b):
        return '{}: {!r} and {!r}'.format(where, a, b)[:300]
    if isinstance(a, dict):
        if list(a) != list(b):
            return '{}: {} and {}'.format(where, list(a), list(b))[:600]
        a, b = list(a.items()), list(b.items())
        for (k, x), (_, y) in zip(a, b):
            d = differences(x, y, '{}/{}'.format(where, k), n)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return '{}: {} and {} entries'.format(where, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differences(x, y, '{}[{}]'.format(where, i), n)
            if d:
                return d
        return None
    return None if a == b else '{}: {!r} and {!r}'.format(where, a, b)[:300]


@group(quick=2, thorough=24)
def environments(c):
    d = c.path('inputs')
    os.makedirs(d)
    prepare(c, d)
    if c.thorough:
        pick = list(range(len(ENVS)))
    else:  # all of them over the cases
        pick = [i for i in range(len(ENVS)) if i % 2 == c.index % 2]
    jobs = []
    for i in [None] + pick:
        env = {} if i is None else ENVS[i][1]
        cwd = c.path('cwd{}'.format(i))
        os.makedirs(cwd)
        out = c.path('out{}.json'.format(i))
        jobs.append((i, out, probe(d, out, env, cwd,
                                   0o077 if i in (2, 7) else None)))
    results = {}
    for i, out, p in jobs:
        err = p.communicate()[1].decode(errors='replace')
        c.event('processes')
        if p.returncode < 0:
            raise Inconclusive('probe ended by signal {}'.format(
                p.returncode))
        if p.returncode == 0:
            with open(out) as f:
                results[i] = json.load(f)
        else:
            results[i] = None
            c.note(**{'error {}'.format(i): err[-600:]})
    base = results[None]
    if base is None:
        # fails everywhere alike: for the checks of the part that fails
        c.check(all(r is None for r in results.values()),
                'fails-in-some-environments', c.notes)
        for k in ('outcomes', 'numbers'):
            c.event(k)
        c.nontrivial('failed')
        return
    for i in pick:
        what = ENVS[i][0]
        r = results[i]
        if not c.check(r is not None, 'fails-' + what.replace(' ', '-'),
                       c.notes.get('error {}'.format(i))):
            continue
        if not c.equal(sorted(r), sorted(base), 'outcomes', what):
            continue
        n = [0]
        for k in base:
            c.event('outcomes')
            diff = differences(base[k], r[k], k, n)
            c.check(diff is None, 'differs-' + k.split(' ')[0],
                    lambda: (what, diff))
        c.event('numbers', n[0])
        c.nontrivial(c.index, what)
