"""C32: probability functions match their definitions"""
import decimal
import math

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Counts and means log-uniform from zero and 1e-300 to the hundred
thousands, tails far from the mean, every small combination; values against
exact integers and 60-digit decimal arithmetic, sums over whole distributions,
arrays of every shape and type against scalars. Distinct by magnitude of the
arguments."""
ASSUMPTIONS = ["means above zero and counts within 0..n as defined",
               "single-precision arguments where the signatures say so"]
REQUIRE = ['binom', 'poisson', 'logpmf', 'normal', 'xlogy', 'sums', 'arrays']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 5
D = decimal.Decimal
decimal.getcontext().prec = 60
decimal.getcontext().Emin = -10 ** 9
decimal.getcontext().Emax = 10 ** 9


def setup():
    import CHECLabPy.stats  # noqa


def log_factorial(k):
    if k < 3000:
        return D(math.factorial(k)).ln()
    x = D(k + 1)  # Stirling series, exact far beyond double precision here
    pi = D('3.14159265358979323846264338327950288419716939937510582097494')
    res = (x - D('0.5')) * x.ln() - x + (2 * pi).ln() / 2
    for a, b, p in ((1, 12, 1), (-1, 360, 3), (1, 1260, 5), (-1, 1680, 7),
                    (1, 1188, 9)):
        res += D(a) / D(b) / x ** p
    return res


def log_poisson(k, mu):
    mu = D(float(mu))
    return D(k) * mu.ln() - mu - log_factorial(k)


def to_float(log):
    if log > 710:
        return math.inf
    return float(log.exp()) if log > -760 else 0.0


def tol(log_terms):
    """Relative error of exp of a difference of such terms"""
    return 1e-11 + 1e-14 * float(log_terms)


def draw_count(rng):
    return int(rng.choice([rng.integers(0, 12), rng.integers(0, 200),
                           int(10 ** rng.uniform(0, 5))]))


def draw_mean(rng, k):
    how = int(rng.integers(4))
    if how == 0:
        return float(10 ** rng.uniform(-300, -1))
    if how == 1:
        return float(10 ** rng.uniform(-2, 5))
    if how == 2:
        return float(max(k, 0.3) * rng.uniform(0.5, 2))
    return float(max(k + rng.normal(0, 3) * math.sqrt(k + 1), 0.01))


@group(quick=200, thorough=20000)
def values(c):
    from CHECLabPy.stats.pdf import binom, poisson, poisson_logpmf
    for _ in range(10):
        n = draw_count(c.rng)
        k = int(c.rng.integers(0, n + 1)) if c.rng.random() < 0.8 else \
            int(c.rng.choice([0, n]))
        c.event('binom')
        if n < 3000:
            exact = math.comb(n, k)
            want = float(exact) if exact < 2 ** 1023 else math.inf
        else:
            want = to_float(log_factorial(n) - log_factorial(k)
                            - log_factorial(n - k))
        got = binom(n, k)
        if math.isfinite(want):
            c.close(got, want, 'binom', tol(math.lgamma(n + 1)), 0, (n, k))
        else:
            c.check(got > 1e307, 'binom', (n, k, got))
        k = draw_count(c.rng)
        mu = draw_mean(c.rng, k)
        log = log_poisson(k, mu)
        terms = (k * abs(math.log(mu)) + mu + math.lgamma(k + 1))
        want = to_float(log)
        got = float(poisson(k, mu))
        c.event('poisson')
        c.close(got, want, 'poisson', tol(terms), 1e-305, (k, mu))
        c.check(got >= 0, 'poisson', ('negative', k, mu))
        k32 = np.float32(k)  # exact below 2**24
        got = float(poisson_logpmf(k32, mu))
        c.event('logpmf')
        c.close(got, float(log), 'logpmf', 1e-12, 1e-14 * terms + 1e-14,
                (k, mu))
        c.nontrivial(len(str(n)), len(str(k)), int(math.log10(mu)) // 5)


@group(quick=200, thorough=10000)
def densities(c):
    from CHECLabPy.stats.pdf import normal_pdf, xlogy
    for _ in range(10):
        scale = 10 ** c.rng.uniform(-6, 6)
        sigma = float(scale * 10 ** c.rng.uniform(-2, 1))
        mean = float(c.rng.choice([0, c.rng.normal(0, scale)]))
        x = float(np.float32(mean + sigma * c.rng.choice(
            [0, c.rng.normal(), c.rng.uniform(-30, 30)])))
        u = (D(x) - D(mean)) / D(sigma)
        want = to_float(-u * u / 2 - D(2 * math.pi).ln() / 2 - D(sigma).ln())
        got = float(normal_pdf(np.float32(x), mean, sigma))
        c.event('normal')
        c.close(got, want, 'normal', 1e-11 + 1e-14 * float(
            u * u + abs(u * (D(abs(x)) + D(abs(mean))) / D(sigma))), 1e-305,
            (x, mean, sigma))
        x = float(np.float32(c.rng.choice(
            [0, c.rng.integers(0, 100), c.rng.uniform(0, 1e4)])))
        y = float(10 ** c.rng.uniform(-300, 300)) if c.rng.random() < 0.7 \
            else float(c.rng.uniform(0, 2) + 1e-3)
        if x == 0 and c.rng.random() < 0.5:
            y = 0.0
        c.event('xlogy')
        want = 0.0 if x == 0 else float(D(x) * D(y).ln())
        c.close(xlogy(np.float32(x), y), want, 'xlogy', 1e-12, 1e-15 * x, (x, y))
        c.nontrivial(x == 0, y == 0, int(math.log10(sigma)))


@group(quick=60, thorough=3000)
def sums(c):
    from CHECLabPy.stats.pdf import binom, normal_pdf, poisson, \
        poisson_logpmf
    mu = float(10 ** c.rng.uniform(-4, 4))
    k = np.arange(int(mu + 40 * math.sqrt(mu) + 60))
    p = poisson(k, mu)
    c.event('sums')
    c.close(p.sum(), 1, 'poisson-sum', 1e-9 + 1e-14 * mu * 10, 0, mu)
    c.close((p * k).sum(), mu, 'poisson-mean', 1e-8, 0, mu)
    c.close(np.exp(poisson_logpmf(k.astype(np.float32), mu)), p, 'log-and-value',
            1e-10 + 1e-13 * k.size, 1e-300, mu)
    n = int(c.rng.integers(0, 1000))
    row = binom(n, np.arange(n + 1))
    c.close(row.sum(), 2.0 ** n, 'binom-sum', 1e-10, 0, n)
    if n < 900:
        c.close(row, row[::-1], 'binom-symmetry', 1e-10, 0, n)
    mean, sigma = c.rng.normal(0, 100), 10 ** c.rng.uniform(-1, 2)
    x = np.linspace(mean - 12 * sigma, mean + 12 * sigma, 4001).astype(
        np.float32)
    c.close(np.trapz(normal_pdf(x, mean, sigma), x.astype(float)), 1,
            'normal-integral', 1e-3, 0, (mean, sigma))
    c.nontrivial(int(math.log10(mu) * 4), n // 50)


@group(quick=100, thorough=4000)
def arrays(c):
    from CHECLabPy.stats import pdf
    shape = [(), (1,), (7,), (3, 4), (0,), (1000,)][int(c.rng.integers(6))]
    ints = c.rng.integers(0, 60, shape)
    ints = np.asarray(ints, dtype=c.rng.choice([np.int64, np.int32,
                                                np.uint8]))
    mean = c.rng.uniform(0.01, 50, shape if c.rng.random() < 0.5 else ())
    x = np.asarray(c.rng.normal(0, 40, shape), dtype=np.float32)
    for name, args in (('poisson', (ints, mean)),
                       ('binom', (ints + 60, ints)),
                       ('normal_pdf', (x, mean, 3.5)),
                       ('poisson_logpmf', (ints.astype(np.float32), mean)),
                       ('xlogy', (np.abs(x), mean))):
        f = getattr(pdf, name)
        keep = [np.array(a) for a in args]
        got = f(*args)
        c.event('arrays')
        for a, b in zip(args, keep):
            c.equal(a, b, 'input-changed', name)
        if not c.check(np.shape(got) == shape, 'array-shape',
                       (name, np.shape(got), shape)):
            continue
        full = [np.broadcast_to(a, shape).ravel() for a in args]
        one = [float(f(*[a[i] for a in full]))
               for i in range(min(int(np.prod(shape)), 50))]
        # float32 intermediates differ between the paths at most so much
        c.close(np.ravel(got)[:50], one, 'array-values', 1e-9, 1e-300, name)
        c.nontrivial(name, shape, ints.dtype, x.dtype)
