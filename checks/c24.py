"""C24: charge statistics do not depend on how the data is split"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """As for the charge resolution: random entries in random splits, orders
and numbers of intermediate reductions, compared with direct two-pass
statistics. Large common offsets, constant charges and single entries are
included, for which the variance is at the edge of rounding. Distinct by split
and data set."""
ASSUMPTIONS = ["""standard deviations are judged within the rounding of a
difference of squares, sqrt(eps) times the mean"""]
REQUIRE = ['tables', 'reductions', 'zero_variance']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 5


def setup():
    import CHECLabPy.utils.resolutions  # noqa


@group(quick=110, thorough=5000)
def statistics(c):
    from CHECLabPy.utils.resolutions import ChargeStatistics, \
        IntensityStatistics
    from checks.c23 import split, _count
    from vlib import h5
    n = int(c.rng.choice([1, 10, 300, 3000]))
    n_pix = int(c.rng.choice([1, 4, 60]))
    pixel = c.rng.integers(0, n_pix, n)
    pool = c.rng.uniform(0, 100, 5)
    if c.rng.random() < 0.3:
        pool = pool.round(2)
    elif c.rng.random() < 0.5:  # differ in the last digits only
        pool = pool[0] + c.rng.integers(0, 9, 5) * 10.0 ** c.rng.integers(
            -9, 0)
    amplitude = c.rng.choice(pool, n)
    if c.rng.random() < 0.3:
        amplitude = c.rng.integers(0, 4, n)
    offset = float(c.rng.choice([0, 0, 10, 1e4, 1e6]))
    spread = float(c.rng.choice([0, 1, 20]))
    charge = offset + c.rng.normal(0, 1, n) * spread
    if spread == 0:
        charge = charge + c.rng.random()
        c.event('zero_variance')
    f32 = bool(c.rng.random() < 0.3 and offset < 1e4)
    if f32:
        charge = charge.astype(np.float32)
    eps = 1e-6 if f32 else 1e-14
    cls = ChargeStatistics if c.rng.random() < 0.7 else IntensityStatistics
    st = cls()
    parts = split(c.rng, n)
    c.note(n=n, n_pix=n_pix, parts=len(parts), offset=offset, spread=spread)
    done = np.zeros(0, dtype=int)
    with h5.FlushSchedule() as sched, _count(c):
        sched.scale = float(c.rng.choice([1, 1e5, 1e7, 1e9]))
        for p in parts:
            st.add(pixel[p], amplitude[p], charge[p])
            done = np.append(done, p)
            if c.rng.random() < min(0.1, 6 / len(parts)) and len(done):
                judge(c, st, pixel[done], amplitude[done], charge[done], eps)
        judge(c, st, pixel, amplitude, charge, eps)
    c.nontrivial(n, n_pix, len(parts), offset, spread, sched.scale)


def judge(c, st, pixel, amplitude, charge, eps):
    from checks.c23 import compare
    df_p, df_c = st.finish()
    for df, keys, what in ((df_p, ['pixel', 'amplitude'], 'pixel'),
                           (df_c, ['amplitude'], 'camera')):
        acc = {}
        for p, a, q in zip(pixel.tolist(), amplitude.tolist(),
                           charge.astype(float).tolist()):
            acc.setdefault((p, a) if what == 'pixel' else a, []).append(q)
        want = {k: (len(v), np.mean(v), np.std(v)) for k, v in acc.items()}
        w = compare(c, df, want, keys, what)
        if w is None:
            return
        scale = np.abs(charge).max() + 1e-9
        c.close(df['mean'].values, w[:, 1], what + '-mean', 1e-9,
                20 * eps * scale)
        std = df['std'].values
        c.check(np.isfinite(std).all() and (std >= 0).all(),
                what + '-std-invalid', lambda: std[~(std >= 0)][:5])
        # variance is a difference of squares
        c.close(std ** 2, w[:, 2] ** 2, what + '-std', 1e-6,
                200 * eps * scale ** 2)
