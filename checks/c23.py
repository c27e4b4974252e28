"""C23: charge resolution does not depend on how the data is split"""
import numpy as np
import pandas as pd

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random entries (few to many pixels and true charges, integer and
fractional, zero charges, repeated and rare combinations) are contributed in
random splits, orders and table sizes, with intermediate reductions triggered
at random (memory reported to the 1 GB limit is scaled) or never, and with
results requested in between. The tables are compared with a direct computation
on all entries in double precision. Distinct by split and data set."""
ASSUMPTIONS = ["""charges are finite; true charges are not negative when the
Poisson fluctuation is added"""]
REQUIRE = ['tables', 'reductions', 'zero_true', 'results_in_between']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 6


def setup():
    import CHECLabPy.utils.resolutions  # noqa


def direct(pixel, true, measured, mc_true, per_pixel):
    keys = list(zip(pixel, true)) if per_pixel else list(true)
    acc = {}
    for k, t, m in zip(keys, true, measured):
        if t == 0:
            continue
        a = acc.setdefault(k, [0.0, 0])
        a[0] += (float(m) - float(t)) ** 2
        a[1] += 1
    res = {}
    for k, (s, n) in acc.items():
        t = k[1] if per_pixel else k
        v = np.sqrt(s / n + (t if mc_true else 0))
        res[k] = (n, v / abs(t), v)
    return res


def split(rng, n):
    """Random contributions covering range(n) once, in any order"""
    idx = rng.permutation(n) if rng.random() < 0.5 else np.arange(n)
    how = int(rng.integers(5))
    if how == 0:
        return [idx]
    k = [0, 2, 5, min(n, 40), min(n, int(rng.integers(50, 900)))][how]
    cuts = np.sort(rng.integers(0, n + 1, k - 1))
    return np.split(idx, cuts)


def compare(c, df, want, keys, what):
    c.event('tables')
    got = df[keys].values
    seen = [tuple(r) if len(keys) > 1 else r[0] for r in got]
    if not c.check(len(seen) == len(set(seen)), what + '-repeated', seen[:9]):
        return
    if not c.check(set(seen) == set(want), what + '-entries', lambda: (
            sorted(set(seen) ^ set(want))[:5], len(seen), len(want))):
        return
    w = np.array([want[k] for k in seen]).reshape(len(seen), -1)
    c.equal(df['n'].values.astype(int), w[:, 0].astype(int), what + '-n')
    return w


@group(quick=90, thorough=4000)
def resolution(c):
    from CHECLabPy.utils.resolutions import ChargeResolution, \
        IntensityResolution
    from vlib import h5
    n = int(c.rng.choice([1, 10, 300, 3000]))
    n_pix = int(c.rng.choice([1, 4, 60]))
    mc = bool(c.rng.random() < 0.5)
    pixel = c.rng.integers(0, n_pix, n) * int(c.rng.integers(1, 30))
    pool = np.unique(c.rng.integers(0, 200, int(c.rng.integers(1, 12))))
    true = c.rng.choice(pool, n)
    if c.rng.random() < 0.5:
        pool = np.concatenate([[0.0], c.rng.uniform(0.05, 300, 6)])
        true = c.rng.choice(pool, n)
    c.event('zero_true', int((true == 0).sum()))
    if not mc and c.rng.random() < 0.3:  # negative, as in units of noise
        true = np.where(c.rng.random(n) < 0.5, -true, true) if \
            c.rng.random() < 0.7 else -np.abs(true)
        c.event('negative_true', int((true < 0).sum()))
    measured = true * c.rng.uniform(0.5, 1.5) + c.rng.normal(0, 5, n)
    f32 = c.rng.random() < 0.4
    if f32:
        measured = measured.astype(np.float32)
    if not (true != 0).any():
        true[0] = 3
    cls = ChargeResolution if c.rng.random() < 0.7 else IntensityResolution
    cr = cls(mc)
    parts = split(c.rng, n)
    c.note(n=n, n_pix=n_pix, parts=len(parts), mc_true=mc, float32=f32)
    done = np.zeros(0, dtype=int)
    rtol = 1e-4 if f32 else 1e-8
    with h5.FlushSchedule() as sched, _count(c):
        sched.scale = float(c.rng.choice([1, 1e5, 1e7, 1e9]))
        for p in parts:
            cr.add(pixel[p], true[p], measured[p])
            done = np.append(done, p)
            if c.rng.random() < min(0.15, 6 / len(parts)) and (true[done] != 0).any():
                judge(c, cr, pixel[done], true[done], measured[done], mc,
                      rtol)
                c.event('results_in_between')
        judge(c, cr, pixel, true, measured, mc, rtol)
        if c.rng.random() < 0.3:  # asking again changes nothing
            judge(c, cr, pixel, true, measured, mc, rtol)
    c.nontrivial(n, n_pix, len(parts), mc, sched.scale)


class _count:
    """Counts the reductions (table concatenations)"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.orig = pd.concat

        def concat(*args, **kwargs):
            self.c.event('reductions')
            return self.orig(*args, **kwargs)
        pd.concat = concat

    def __exit__(self, *args):
        pd.concat = self.orig


def judge(c, cr, pixel, true, measured, mc, rtol):
    df_p, df_c = cr.finish()
    for df, keys, per in ((df_p, ['pixel', 'true'], True),
                          (df_c, ['true'], False)):
        what = 'pixel' if per else 'camera'
        want = direct(pixel.tolist(), true.tolist(), measured.tolist(), mc,
                      per)
        w = compare(c, df, want, keys, what)
        if w is None:
            return
        c.close(df['charge_resolution'].values, w[:, 1], what + '-relative',
                rtol, 1e-9)
        c.close(df['charge_resolution_abs'].values, w[:, 2],
                what + '-absolute', rtol, 1e-9)
        c.check('pixel' in df.columns or not per, what + '-columns')


@group(quick=20, thorough=500)
def formulae(c):
    """The static formulae used for requirement curves"""
    from CHECLabPy.utils.resolutions import ChargeResolution as R
    n = int(c.rng.integers(1, 30))
    true = c.rng.uniform(0.1, 1000, n)
    s = c.rng.uniform(0, 1e5, n)
    k = c.rng.integers(1, 1000, n)
    c.close(R.rmse_abs(s, k), np.sqrt(s / k), 'formula')
    c.close(R.rmse(true, s, k), np.sqrt(s / k) / true, 'formula')
    c.close(R.charge_res_abs(true, s, k), np.sqrt(s / k + true), 'formula')
    c.close(R.charge_res(true, s, k), np.sqrt(s / k + true) / true, 'formula')
    c.nontrivial('formula', n)
