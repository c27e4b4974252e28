"""C33: Welford's running statistics equal the direct ones"""
from fractions import Fraction

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random sample sequences (large offsets, tiny spreads, constant, long,
sorted, integers, single samples, huge and tiny magnitudes) are fed one by one;
after the steps mean, count and sum are compared with exact rational
arithmetic within the known rounding bound of the method. Distinct by kind,
length and offset."""
ASSUMPTIONS = ["the running values start at zero"]
REQUIRE = ['samples', 'exact_comparisons', 'permutations', 'constant']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 4
EPS = 2.0 ** -52


def setup():
    import CHECLabPy.stats  # noqa


def draw(rng):
    kind = str(rng.choice(['normal', 'offset', 'constant', 'integers',
                           'outlier', 'tiny', 'huge', 'sorted', 'single',
                           'alternating']))
    n = int(rng.choice([1, 2, 3, rng.integers(4, 60), rng.integers(60, 400)]))
    offset = 0.0
    x = rng.normal(0, 1, n)
    if kind == 'offset':
        offset = 10.0 ** rng.integers(3, 13) * rng.choice([-1, 1])
        x = x + offset
    elif kind == 'constant':
        x = np.full(n, rng.normal(0, 1e3))
    elif kind == 'integers':
        x = rng.integers(-4000, 4000, n).astype(float)
    elif kind == 'outlier':
        x[int(rng.integers(n))] = 1e6
    elif kind == 'tiny':
        x = x * 1e-120
    elif kind == 'huge':
        x = x * 1e120
    elif kind == 'sorted':
        x = np.sort(x * 100)[::int(rng.choice([-1, 1]))]
    elif kind == 'single':
        x = x[:1] * 1e5
    elif kind == 'alternating':
        x = 1e4 + np.where(np.arange(n) % 2, 1.0, -1.0)
    return kind, x, offset


def exact(x):
    f = [Fraction(float(v)) for v in x]
    mean = sum(f) / len(f)
    return mean, sum((v - mean) ** 2 for v in f)


def compare(c, got, x, mech):
    mean, count, m2 = got
    n = len(x)
    emean, em2 = exact(x)
    big = float(np.abs(x).max())
    c.event('exact_comparisons')
    c.check(int(count) == n, 'count', (count, n))
    bound = 4 * n * EPS * big
    c.check(abs(float(Fraction(float(mean)) - emean)) <= bound, mech + '-mean',
            lambda: (float(mean), float(emean), bound))
    # |error| <= n eps kappa m2 with the condition number kappa
    bound = 8 * n * EPS * np.sqrt(float(em2)) * (
        np.sqrt(float(em2)) + np.sqrt(n) * big) + n * (n * EPS * big) ** 2
    c.check(abs(float(Fraction(float(m2)) - em2)) <= bound, mech + '-m2',
            lambda: (float(m2), float(em2), float(bound)))


@group(quick=300, thorough=20000)
def sequences(c):
    from CHECLabPy.stats import welfords_online_algorithm as step
    kind, x, offset = draw(c.rng)
    state = (0.0, 0, 0.0)
    n = len(x)
    at = set(int(i) for i in c.rng.integers(0, n, 2)) | {0, n - 1}
    for i, v in enumerate(x):
        old = state
        state = step(float(v), *state)
        c.event('samples')
        if not c.check(len(state) == 3, 'results', state):
            return
        c.check(state[1] == old[1] + 1, 'count-step', (old, state))
        c.check(state[2] >= 0, 'negative', (kind, state[2]))
        c.check(state[2] >= old[2] * (1 - 1e-15), 'decreasing', (kind, old,
                                                                 state))
        if i in at:
            compare(c, state, x[:i + 1], 'running')
    if kind == 'constant':
        c.event('constant')
        c.check(state[2] <= (n * EPS * abs(x[0])) ** 2 * n, 'constant',
                state[2])
    p = c.rng.permutation(n)
    other = (0.0, 0, 0.0)
    for v in x[p]:
        other = step(float(v), *other)
    c.event('permutations')
    compare(c, other, x[p], 'permuted')
    c.note(kind=kind, n=n, offset=offset)
    c.nontrivial(kind, n // 5, offset)


@group(quick=2, thorough=12)
def long(c):
    """Millions of samples, as in a night's data"""
    from CHECLabPy.stats import welfords_online_algorithm as step
    n = int(c.rng.integers(70000, 150000)) * (3 if c.thorough else 1)
    x = c.rng.normal(0, 1, n)
    x += float(c.rng.choice([0, 100])) + np.linspace(0, 20, n)
    state = (0.0, 0, 0.0)
    for v in x.tolist():
        state = step(v, *state)
    c.event('samples', n)
    compare(c, state, x, 'long')
    c.nontrivial('long', n)


@group(quick=20, thorough=400)
def interleaved(c):
    """Several running statistics at once, as one per pixel, do not mix"""
    from CHECLabPy.stats import welfords_online_algorithm as step
    n_pix, n = int(c.rng.integers(2, 20)), int(c.rng.integers(2, 50))
    x = c.rng.normal(0, 1, (n, n_pix)) * 10.0 ** c.rng.integers(
        -3, 4, n_pix) + 10.0 ** c.rng.integers(0, 7, n_pix)
    state = [(0.0, 0, 0.0)] * n_pix
    for ev in x:
        for p in c.rng.permutation(n_pix):
            state[p] = step(float(ev[p]), *state[p])
            c.event('samples')
    for p in range(n_pix):
        compare(c, state[p], x[:, p], 'pixel')
    c.nontrivial(n_pix, n)
