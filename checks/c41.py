"""C41: extracted pulses account for the whole extracted charge"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Events of all kinds (pulses anywhere, noise, flat, saturated, large)
go through the real extraction; charge sums are monitored per pixel, every
solution is judged by the conditions that characterise it (non-negative,
stationary on the pulses found, no bin left whose addition would matter more
than the tolerance) and by repetition with other pixels replaced, scaled
waveforms and single template pulses. Distinct by kind and amplitudes."""
ASSUMPTIONS = ["128 samples, which the extraction is written for",
               "synthetic reference pulses"]
REQUIRE = ['pixels', 'most_pulses', 'pulses', 'no_pulse', 'in_time', 'out_of_time',
           'solutions', 'templates', 'replaced', 'scaled', 'iterations_ended']
WORKERS = dict(quick=4, thorough=8)
TOL = 14.5
SCALE = 7


def setup():
    import CHECLabPy.waveform_reducers.nnls_pulse_extraction  # noqa


def reducer(rng, n_pixels):
    from CHECLabPy.waveform_reducers.nnls_pulse_extraction import \
        NNLSPulseExtraction
    from vlib import reduce
    path = reduce.PULSES[int(rng.integers(2))]
    return NNLSPulseExtraction(n_pixels, 128, reference_pulse_path=path), path


def waveforms(rng, n):
    from vlib import reduce
    u = rng.random()
    if u < 0.3:
        return reduce.spread(rng, n, 128), 'spread'
    if u < 0.5:  # many pulses in each pixel
        wf = sum(reduce.spread(rng, n, 128)
                 for _ in range(int(rng.integers(3, 15))))
        return wf, 'busy'
    return reduce.event(rng, n)


def run(r, wf, c=None):
    keep = wf.copy()
    d = {k: np.array(v, dtype=float) for k, v in r.process(wf).items()}
    if c is not None:
        c.equal(wf, keep, 'waveforms-changed')
    return d


@group(quick=60, thorough=2500)
def charges(c):
    from CHECLabPy.waveform_reducers.nnls_pulse_extraction import nnls
    rng = c.rng
    n = int(rng.choice([1, 5, 32]))
    r, _ = reducer(rng, n)
    kinds = []
    wf = None
    for k in range(4):
        if k and rng.random() < 0.3:  # the same samples, placed differently
            wf = np.roll(np.round(wf), int(rng.integers(1, 127)), axis=1)
            wf, kind = np.ascontiguousarray(wf), 'rolled'
        elif k and rng.random() < 0.1:
            wf, kind = np.zeros_like(wf), 'zero'
        else:
            wf, kind = waveforms(rng, n)
            if rng.random() < 0.5:
                wf = np.round(wf)
        kinds.append(kind)
        d = run(r, wf, c)
        q, t = d['charge_nnls'], d['nnls_tcharge']
        m, o = d['nnls_tmcharge'], d['nnls_tccharge']
        num = d['nnls_npulses']
        scale = np.abs(q).max() + 1e-9
        c.event('pixels', n)
        for k, v in d.items():
            if k != 'nnls_norm':
                c.check(v.shape == (n,) and np.isfinite(v).all(), 'finite', k)
        c.check((q >= 0).all() and (t >= 0).all() and (o >= 0).all()
                and (m >= 0).all(), 'negative-charge')
        c.close(t + o, q, 'in-and-out-of-time', 1e-9, 1e-9 * scale)
        c.check((m <= t * (1 + 1e-12)).all(), 'largest-pulse')
        c.check(((m > 0) == (t > 0)).all(), 'largest-pulse')
        c.equal(num == 0, q == 0, 'number-of-pulses')
        c.check((num == np.floor(num)).all() and (num <= 508).all(),
                'number-of-pulses')
        c.event('no_pulse', (num == 0).sum())
        c.event('in_time', (t > 0).sum())
        c.event('out_of_time', (o > 0).sum())
        # the pulses themselves
        mean = np.zeros(n)
        sols = []
        for p in range(n):
            x = SCALE * nnls(r.model_matrix, wf[p], maxit=128,
                             tolerance=-TOL)
            sols.append(x)
            on = x > 0
            c.event('pulses', on.sum())
            c.close(q[p], x.sum(), 'charge', 1e-6, 1e-6, (kind, p))
            c.check(num[p] == on.sum(), 'number-of-pulses', (num[p], p))
            if on.any():
                mean[p] = np.average(r.basis_t[on], weights=x[on])
        c.event('most_pulses', num.max() > 8)
        kept = {i: np.asarray(v)[:, 1].sum() for i, v in r.pulses.items()}
        c.check(set(kept) == set(np.flatnonzero(num)), 'pulses-kept',
                (kinds, sorted(kept), num))
        c.close([kept[i] for i in sorted(kept)], q[num > 0], 'pulses-kept',
                1e-9)
        if (num > 0).all():
            dist = [np.abs(r.basis_t - mean.mean()) for _ in range(n)]
            for p in range(n):
                inside = (dist[p] <= 5e-9) & (sols[p] > 0)
                if (np.abs(dist[p] - 5e-9) < 1e-13).any():
                    continue
                c.close(t[p], sols[p][inside].sum(), 'in-time-charge',
                        1e-6, 1e-6, (kind, p))
                c.close(m[p], sols[p][inside].max(initial=0), 'largest-pulse',
                        1e-6, 1e-6, (kind, p))
    c.note(n_pixels=n, kinds=kinds)
    c.nontrivial(n, kinds)


@group(quick=60, thorough=2500)
def own_waveform(c):
    """Other pixels replaced, order of events, scaled waveforms"""
    rng = c.rng
    n = 8
    r, path = reducer(rng, n)
    wf, kind = waveforms(rng, n)
    wf = wf.astype(np.float64)
    ref = run(r, wf)
    keep = int(rng.integers(n))
    other, _ = waveforms(rng, n)
    other = other.astype(np.float64)
    other[keep] = wf[keep]
    got = run(r, other)
    c.event('replaced', n - 1)
    for k in ('charge_nnls', 'nnls_npulses'):
        c.close(got[k][keep], ref[k][keep], 'other-pixels', 1e-9, 1e-9, k)
    again = run(r, wf)
    for k in ref:
        if k != 'nnls_norm':
            c.close(again[k], ref[k], 'repeated-event', 1e-9, 1e-9, k)
    # permuted pixels
    o = rng.permutation(n)
    got = run(r, wf[o])
    for k in ref:
        if k != 'nnls_norm':
            c.close(got[k], ref[k][o], 'permuted-pixels', 1e-9, 1e-9, k)
    # in proportion for pulses far above the tolerance
    A = r.model_matrix
    wf = np.zeros((n, 128))
    for p in range(n):
        for i in rng.integers(160, 380, int(rng.integers(1, 4))):
            wf[p] += A[:, i] * rng.uniform(0.3, 1) * 1e3
    a = float(rng.uniform(1.5, 20))
    x1, x2 = run(r, wf), run(r, wf * a)
    c.event('scaled', n)
    c.close(x2['charge_nnls'], a * x1['charge_nnls'], 'proportional', 0.1, 0,
            a)
    c.nontrivial(kind, keep)


@group(quick=60, thorough=2500)
def templates(c):
    """A single reference pulse gives its own charge and time"""
    rng = c.rng
    n = 12
    r, path = reducer(rng, n)
    xy = np.loadtxt(path)
    which = rng.integers(160, 380, n)  # entirely inside the readout
    amp = 10 ** rng.uniform(1.3, 3, n)
    t = np.arange(128) * 1e-9
    wf = np.array([
        a * np.interp(t - r.basis_t[i], xy[:, 0], xy[:, 1], left=0, right=0)
        for a, i in zip(amp, which)])
    d = run(r, wf)
    c.event('templates', n)
    c.close(d['charge_nnls'], SCALE * amp, 'template-charge', 0.1, 10,
            'single pulses')
    # A pulse composed from the matrix itself is recovered exactly enough
    A = r.model_matrix
    wf = amp[:, None] * A[:, which].T
    d = run(r, wf)
    c.close(d['charge_nnls'], SCALE * amp, 'template-charge', 0.05, 5)
    # the peak anywhere in the readout, the rest of the pulse cut off
    i = rng.integers(105, 478, n)
    high = 10 ** rng.uniform(2, 3.5, n)
    d = run(r, (A[:, i] * high).T)
    c.close(d['charge_nnls'], SCALE * high, 'template-charge', 0.15, 0,
            'peak inside')
    # the same pulse in all pixels is in time
    i = int(which[0])
    d = run(r, np.repeat(wf[:1], n, 0))
    c.check((d['nnls_tcharge'] >= 0.8 * d['charge_nnls']).all(),
            'template-in-time', (i, d['nnls_tcharge'], d['charge_nnls']))
    c.nontrivial(path[-5], which[:3])


@group(quick=120, thorough=6000)
def solver(c):
    """Solutions satisfy the conditions of optimality"""
    from CHECLabPy.waveform_reducers.nnls_pulse_extraction import nnls
    rng = c.rng
    if rng.random() < 0.4:
        r, _ = reducer(rng, 1)
        A = r.model_matrix
        b = waveforms(rng, 1)[0][0].astype(float)
        kind = 'pulses'
    else:
        m, k = int(rng.integers(1, 40)), int(rng.integers(1, 40))
        kind = str(rng.choice(['any', 'positive', 'sparse']))
        A = rng.normal(0, 1, (m, k))
        if kind == 'positive':
            A = np.abs(A)
        elif kind == 'sparse':
            A = A * (rng.random((m, k)) < 0.4)
        b = rng.normal(0, 10, m)
        if rng.random() < 0.3:
            b = A @ np.abs(rng.normal(0, 3, k))
    tol = float(rng.choice([0, 0, -0.5, -TOL])) - 1e-9
    A0, b0 = A.copy(), b.copy()
    maxit = [None, 3000, int(rng.choice([1, 2, 5]))][int(rng.integers(3))]
    kw = dict(tolerance=tol)
    if maxit:
        kw['maxit'] = maxit
    x = nnls(A, b, **kw)
    c.event('solutions')
    c.equal(A, A0, 'input-changed')
    c.equal(b, b0, 'input-changed')
    if not c.check(x.shape == (A.shape[1],) and np.isfinite(x).all(),
                   'finite'):
        return
    scale = np.abs(b).max() + 1e-9
    c.check(x.min() >= -1e-9 * scale, 'negative-solution', x.min())
    res = b - A @ x
    c.check(np.linalg.norm(res) <= np.linalg.norm(b) * (1 + 1e-9),
            'worse-than-nothing', (np.linalg.norm(res), np.linalg.norm(b)))
    on = x > 1e-9 * scale
    g = A.T @ res
    eps = 1e-6 * scale * max(np.abs(A).max(), 1) * len(b)
    c.check(not on.any() or np.abs(g[on]).max() <= eps, 'not-stationary',
            lambda: (kind, np.abs(g[on]).max(), eps))
    if maxit:
        c.check(on.sum() <= maxit, 'more-pulses-than-iterations')
    if maxit == 3000:  # ended because nothing was left to add
        c.event('iterations_ended')
        c.check(on.all() or g[~on].max() <= -tol + eps, 'pulse-left-out',
                lambda: (kind, g[~on].max(), tol))
    c.nontrivial(kind, A.shape, tol, maxit, round(float(b[0]), 2))
