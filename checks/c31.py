"""C31: the SiPM data sheet conversion is a consistent interpolation"""
import os

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Every tabulated value of every characteristic, every midpoint, and
random points are converted and converted back (scalars, arrays, lists); the
results are compared with the shipped table read independently. Distinct by
characteristic, row and position within the interval."""
REQUIRE = ['tabulated', 'between', 'round_trips', 'refused', 'outside']
ASSUMPTIONS = ["""values that the data sheet does not state at an operating
point are not compared; each characteristic rises with the overvoltage"""]
KEYS = ('vover', 'gain', 'opct', 'pde')
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 5


def setup():
    import CHECLabPy.calib  # noqa


def table():
    import CHECLabPy.calib as pkg
    path = os.path.join(os.path.dirname(pkg.__file__), 'data',
                        'sipm_data_sheet.csv')
    with open(path) as f:
        head = f.readline().strip().split(',')
        rows = [[float(x) if x else np.nan for x in
                 ln.rstrip('\n').split(',')] for ln in f if ln.strip()]
    arr = np.array(rows)
    return {k: arr[:, head.index(k)] for k in KEYS}


def call(conv, key, value):
    return conv(**{key: value})


def rows_between(tab, key):
    """Intervals whose ends state `key`"""
    x = tab[key]
    return [i for i in range(len(x) - 1)
            if np.isfinite(x[i]) and np.isfinite(x[i + 1])]


@group(quick=4, thorough=4)
def tabulated(c):
    from CHECLabPy.calib import SiPMDataSheetConverter
    conv = SiPMDataSheetConverter()
    tab = table()
    key = KEYS[c.index]
    x = tab[key]
    ok = np.isfinite(x)
    c.check(np.all(np.diff(x[ok]) > 0), 'table-order', key)
    for i in np.flatnonzero(ok):
        res = call(conv, key, float(x[i]))
        c.event('tabulated')
        if not c.check(set(KEYS) <= set(res), 'keys', sorted(res)):
            return
        c.close(res[key], x[i], 'given-value', 1e-9, 0, key)
        for k in KEYS:
            if np.isfinite(tab[k][i]):
                c.close(res[k], tab[k][i], 'tabulated-value', 1e-9, 0,
                        '{} at {}={}'.format(k, key, x[i]))
        c.nontrivial(key, i)


@group(quick=60, thorough=3000)
def between(c):
    from CHECLabPy.calib import SiPMDataSheetConverter
    conv = SiPMDataSheetConverter()
    tab = table()
    for _ in range(4):
        key = str(c.rng.choice(KEYS))
        x = tab[key]
        iv = rows_between(tab, key)
        i = int(c.rng.choice(iv))
        u = float(c.rng.choice([0.5, 1e-6, 1 - 1e-6, c.rng.random()]))
        v = x[i] + u * (x[i + 1] - x[i])
        res = call(conv, key, v)
        c.event('between')
        c.close(res[key], v, 'given-value', 1e-9, 0, key)
        for k in KEYS:
            lo, hi = tab[k][i], tab[k][i + 1]
            if np.isfinite(lo) and np.isfinite(hi):
                c.close(res[k], lo + u * (hi - lo), 'interpolated', 1e-6, 0,
                        '{} at {}={}'.format(k, key, v))
                tol = 1e-9 * abs(hi)
                c.check(lo - tol <= res[k] <= hi + tol, 'between-neighbours',
                        (k, lo, float(res[k]), hi))
        # back, where both states it (all of them linear in one another)
        for k in KEYS:
            if not (np.isfinite(tab[k][i]) and np.isfinite(tab[k][i + 1])):
                continue
            lo, hi = tab[k][i], tab[k][i + 1]
            back = call(conv, k, float(np.clip(res[k], lo, hi)))
            c.event('round_trips')
            for k2 in KEYS:
                if np.isfinite(tab[k2][i]) and np.isfinite(tab[k2][i + 1]):
                    c.close(back[k2], res[k2], 'round-trip', 1e-6, 1e-9,
                            '{} via {} from {}={}'.format(k2, k, key, v))
        c.nontrivial(key, i, round(u, 2))


@group(quick=20, thorough=500)
def arrays(c):
    """Several operating points at once give what each alone gives"""
    from CHECLabPy.calib import SiPMDataSheetConverter
    conv = SiPMDataSheetConverter()
    tab = table()
    key = str(c.rng.choice(KEYS))
    x = tab[key][np.isfinite(tab[key])]
    v = c.rng.uniform(x.min(), x.max(), int(c.rng.integers(1, 30)))
    v[0] = x[0]
    keep = v.copy()
    lst = c.rng.random() < 0.3
    res = call(conv, key, v.reshape(-1, 1)[:, 0] if lst else v)
    c.equal(v, keep, 'input-changed')
    for k in KEYS:
        if not c.check(np.shape(res[k]) == v.shape, 'array-shape', k):
            return
        one = [float(call(conv, key, float(a))[k]) for a in v]
        c.close(res[k], one, 'array-values', 1e-12, 0, k)
        c.event('between', len(v))
    c.nontrivial(key, len(v))


@group(quick=30, thorough=500)
def refusal(c):
    from CHECLabPy.calib import SiPMDataSheetConverter
    conv = SiPMDataSheetConverter()
    tab = table()
    n = int(c.rng.choice([0, 2, 3, 4]))
    keys = [str(k) for k in c.rng.permutation(KEYS)[:n]]
    mid = {k: float(np.nanmedian(tab[k])) for k in KEYS}
    args = {k: mid[k] for k in keys}
    if n == 2 and c.rng.random() < 0.4:
        args[keys[0]] = 0  # given, though zero
    c.raises(Exception, lambda: conv(**args), 'refusal', args)
    c.event('refused')
    # Outside the table
    key = str(c.rng.choice(KEYS))
    x = tab[key][np.isfinite(tab[key])]
    span = x[-1] - x[0]
    d = float(c.rng.choice([1e-6, 0.1, 10])) * span
    v = x[0] - d if c.rng.random() < 0.5 else x[-1] + d
    c.event('outside')
    try:
        res = conv(**{key: v})
    except Exception:
        pass
    else:
        for k in KEYS:
            c.check(not np.isfinite(res[k]), 'outside', (key, v, k,
                                                         float(res[k])))
    c.nontrivial(n, key, d > span, v < x[0])
