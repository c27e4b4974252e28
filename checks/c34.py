"""C34: photoelectron spectra are the stated probability densities"""
import math

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random physical parameters from dark to bright and from no to strong
crosstalk; every value lies between the double-precision sum over all counts
and the same sum without the probabilities below 1e-4; integrals and means over
the whole line, evaluation in other orders, subsets and with 1 to 8 threads.
Distinct by brightness, crosstalk and resolution."""
ASSUMPTIONS = ["the mean plus four standard deviations is below 100 counts",
               "single-precision positions, as the fitters use"]
REQUIRE = ['mapm', 'sipm', 'integrals', 'thread_counts', 'subsets',
           'no_crosstalk']
WORKERS = dict(quick=2, thorough=2)  # each uses several threads
NEGLECT = 1.0001e-4


def setup():
    from CHECLabPy.spectrum_fitters import gentile, mapm  # noqa


def draw(rng, crosstalk):
    opct = 0.0
    if crosstalk and rng.random() < 0.85:
        opct = float(rng.choice([rng.uniform(0, 0.6), 0.4, 1e-6, 0.02]))
    while True:
        lam = float(rng.choice([0.7, 10 ** rng.uniform(-3, 1.6),
                                rng.uniform(0.01, 6)]))
        mean = lam / (1 - opct)
        var = lam * (1 + opct) / (1 - opct) ** 2
        if mean + 4 * math.sqrt(var) + 3 < 98:
            break
    spe = float(rng.choice([1, 25, 10 ** rng.uniform(-1, 2)]))
    p = dict(eped=float(rng.normal(0, 2) * spe / 10), spe=spe,
             eped_sigma=spe * float(rng.uniform(0.05, 0.6)),
             spe_sigma=spe * float(rng.choice([0, rng.uniform(0, 0.5)])),
             lambda_=lam)
    if crosstalk:
        p['opct'] = opct
    return p


def probabilities(lam, opct=0.0):
    """All and the certainly included probabilities of 0..300 counts"""
    k = np.arange(301)
    lg = np.array([math.lgamma(i + 1) for i in k])
    pj = np.exp(k * math.log(lam) - lam - lg)
    if opct == 0:
        low = np.where(pj >= NEGLECT, pj, 0)
        low[0] = pj[0]
        return pj, low
    full, low = np.zeros(301), np.zeros(301)
    full[0] = low[0] = pj[0]
    for n in range(1, 301):
        j = np.arange(1, n + 1)
        logb = (lg[n - 1] - lg[j - 1] - lg[n - j]
                + j * math.log1p(-opct) + (n - j) * math.log(opct))
        terms = pj[j] * np.exp(logb)
        full[n] = terms.sum()
        s = terms[pj[j] >= NEGLECT].sum()
        low[n] = s if s >= NEGLECT else 0
    return full, low


def density(x, prob, p):
    x = np.asarray(x, dtype=float)[:, None]
    k = np.arange(len(prob))[None]
    sigma = np.sqrt(k * p['spe_sigma'] ** 2 + p['eped_sigma'] ** 2)
    u = (x - p['eped'] - k * p['spe']) / sigma
    with np.errstate(under='ignore'):
        return (prob * np.exp(-0.5 * u ** 2) / (
            math.sqrt(2 * math.pi) * sigma)).sum(1)


def span(p, prob):
    top = int(np.flatnonzero(prob > 1e-9).max())
    w = 8 * math.sqrt(top * p['spe_sigma'] ** 2 + p['eped_sigma'] ** 2)
    return p['eped'] - w, p['eped'] + top * p['spe'] + w


def evaluate(name, x, p):
    if name == 'mapm':
        from CHECLabPy.spectrum_fitters.mapm import mapm_spe as f
    else:
        from CHECLabPy.spectrum_fitters.gentile import sipm_gentile_spe as f
    return np.asarray(f(x=np.asarray(x, dtype=np.float32), **p), dtype=float)


def between(c, got, x, full, low, p, mech, what=''):
    hi, lo = density(x, full, p), density(x, low, p)
    tol = 1e-6 * hi + 1e-9 / p['eped_sigma']
    bad = ~((got >= lo - tol) & (got <= hi + tol))
    return c.check(not bad.any(), mech, lambda: '{} {}: {} of {}; at {} got {} '
                   'instead of {}..{}'.format(what, p, bad.sum(), bad.size,
                                              x[bad][0], got[bad][0],
                                              lo[bad][0], hi[bad][0]))


def one(c, name):
    rng = c.rng
    p = draw(rng, name == 'sipm')
    full, low = probabilities(p['lambda_'], p.get('opct', 0))
    a, b = span(p, full)
    n = int(rng.integers(100, 400))
    x = np.sort(rng.uniform(a, b, n)).astype(np.float32)
    if rng.random() < 0.2:
        x[0] = b + (b - a)  # far away, and unordered
    keep = x.copy()
    got = evaluate(name, x, p)
    c.event(name)
    c.equal(x, keep, 'input-changed')
    c.check((got >= 0).all(), name + '-negative', p)
    between(c, got, x, full, low, p, name + '-density')
    # The whole line
    step = p['eped_sigma'] / 5
    m = int(min(max((b - a) / step, 500), 40000))
    xx = np.linspace(a, b, m).astype(np.float32)
    y = evaluate(name, xx, p)
    xd = xx.astype(float)
    c.event('integrals')
    area = np.trapz(y, xd)
    c.check(low.sum() - 1e-4 <= area <= 1 + 1e-4, name + '-area',
            (area, low.sum(), p))
    k = np.arange(301)
    centre = p['eped'] + k * p['spe']
    mean = (full * centre).sum()
    tol = ((full - low) * np.abs(centre)).sum() + 1e-3 * p['spe'] + \
        1e-4 * abs(mean)
    c.check(abs(np.trapz(y * xd, xd) - mean) <= tol, name + '-mean',
            (np.trapz(y * xd, xd), mean, tol, p))
    lam, opct = p['lambda_'], p.get('opct', 0)
    c.close(mean, p['eped'] + lam / (1 - opct) * p['spe'], 'reference',
            1e-4, 1e-4 * p['spe'])
    # Other points do not matter
    pick = rng.permutation(n)[:int(rng.integers(1, n))]
    sub = evaluate(name, x[pick], p)
    c.event('subsets')
    c.close(sub, got[pick], name + '-other-points', 1e-8,
            1e-12 / p['eped_sigma'])
    c.note(**p)
    c.nontrivial(name, int(math.log10(lam) * 3), round(opct, 1),
                 round(p['spe_sigma'] / p['spe'], 1))
    return p, x, got, full, low


@group(quick=60, thorough=3000)
def mapm(c):
    import numba
    p, x, got, full, low = one(c, 'mapm')
    most = numba.config.NUMBA_NUM_THREADS
    try:
        for n in sorted({1, 2, 3, most}):
            if n <= most:
                numba.set_num_threads(n)
                c.event('thread_counts')
                c.close(evaluate('mapm', x, p), got, 'threads', 1e-8,
                        1e-12 / p['eped_sigma'], n)
    finally:
        numba.set_num_threads(most)


@group(quick=60, thorough=2500)
def sipm(c):
    one(c, 'sipm')


@group(quick=30, thorough=1000)
def no_crosstalk(c):
    p = draw(c.rng, False)
    full, low = probabilities(p['lambda_'])
    a, b = span(p, full)
    x = np.linspace(a, b, 300).astype(np.float32)
    m = evaluate('mapm', x, p)
    s = evaluate('sipm', x, dict(p, opct=0.0))
    diff = density(x, full - low, p) + 1e-6 * m + 1e-9 / p['eped_sigma']
    c.event('no_crosstalk')
    c.check((np.abs(m - s) <= diff).all(), 'no-crosstalk',
            lambda: (p, np.abs(m - s).max()))
    c.nontrivial('none', int(math.log10(p['lambda_']) * 4))


@group(quick=8, thorough=150)
def many_at_once(c):
    """Concurrent evaluation from several threads, as notebooks may do"""
    from concurrent.futures import ThreadPoolExecutor
    jobs = []
    for _ in range(12):
        name = 'sipm'
        p = draw(c.rng, True)
        full, low = probabilities(p['lambda_'], p['opct'])
        a, b = span(p, full)
        jobs.append((name, np.linspace(a, b, 200).astype(np.float32), p,
                     full, low))
    evaluate('sipm', jobs[0][1], jobs[0][2])
    with ThreadPoolExecutor(6) as pool:
        res = list(pool.map(lambda j: evaluate(j[0], j[1], j[2]), jobs))
    for (name, x, p, full, low), got in zip(jobs, res):
        between(c, got, x, full, low, p, 'concurrent')
        c.event('concurrent')
    c.nontrivial('threads', c.index)
