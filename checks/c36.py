"""C36: charge histograms conserve the data and fits describe them"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random charges (heavy tails, values on the first and last edge,
outside, none inside, infinities, single precision, integers) are histogrammed
through the real base class for random binnings and numbers of illuminations
and recounted one by one; spectra drawn from each model are fitted with the
real fitters, in random orders with one and with fresh fitters. Distinct by
binning, illuminations and true parameters."""
ASSUMPTIONS = ["""recovery is asked for spectra with resolved peaks and
thousands of entries, within 6 of the fit's own errors plus a small part of the
value"""]
REQUIRE = ['histograms', 'charges', 'outside', 'on_edges', 'curves',
           'recovered', 'refits']
WORKERS = dict(quick=6, thorough=8)


def setup():
    from vlib import synth
    synth.fitters()


def draw_charges(rng, lo, hi):
    n = int(rng.choice([0, 1, 50, 1000, 5000], p=[.05, .05, .3, .4, .2]))
    kind = str(rng.choice(['inside', 'wide', 'spectrum', 'integers', 'single',
                           'outside', 'infinite', 'nan']))
    w = hi - lo
    if kind == 'inside':
        q = rng.uniform(lo, hi, n)
    elif kind == 'spectrum':
        q = lo + w * (0.1 + 0.1 * rng.poisson(1.5, n)) + rng.normal(
            0, 0.02 * w, n)
    elif kind == 'integers':
        q = rng.integers(int(lo) - 5, int(hi) + 6, n)
    elif kind == 'single':
        q = rng.normal((lo + hi) / 2, w / 2, n).astype(np.float32)
    elif kind == 'outside':
        q = hi + rng.uniform(1e-6, 1, n) * w
    else:
        q = rng.normal((lo + hi) / 2, w, n)
        if kind == 'infinite':
            q[::7] = np.inf
            q[1::7] = -np.inf
        if kind == 'nan':  # a failed extraction
            q[::5] = np.nan
    return kind, q


@group(quick=150, thorough=8000)
def histograms(c):
    from vlib import synth
    rng = c.rng
    cls = synth.fitters()['MomentFitter']
    n_ill = int(rng.integers(1, 5))
    fitter = cls(n_ill)
    fitter.n_bins = int(rng.choice([1, 2, 20, 100, rng.integers(3, 400)]))
    lo = float(rng.choice([-40, 0, rng.integers(-100, 100)]))
    hi = lo + float(rng.choice([1, 10, 230, rng.integers(1, 1000)]))
    fitter.range = (lo, hi)
    edges = np.linspace(lo, hi, fitter.n_bins + 1)
    width = (hi - lo) / fitter.n_bins
    for again in range(int(rng.integers(1, 3))):
        charges, kinds = [], []
        for i in range(n_ill):
            kind, q = draw_charges(rng, lo, hi)
            if kind in ('inside', 'wide') and rng.random() < 0.6:
                q = np.concatenate([q, [lo, hi, lo - 1e-9 * abs(hi - lo),
                                        np.nextafter(hi, np.inf)]])
                c.event('on_edges', 2)
            if rng.random() < 0.3:
                q = rng.permutation(q)
            kinds.append(kind)
            charges.append(q)
        keep = [np.array(q) for q in charges]
        fitter.apply(*charges)
        for q, k in zip(charges, keep):
            c.equal(q, k, 'charges-changed')
        x, y, e = fitter.charge_histogram
        c.event('histograms', n_ill)
        c.check(len(y) == n_ill, 'illuminations', len(y))
        c.check(np.shape(e) == (fitter.n_bins + 1,), 'number-of-edges',
                np.shape(e))
        c.check(np.shape(x) == (fitter.n_bins,), 'number-of-centres')
        tol = 1e-6 * max(abs(lo), abs(hi), 1)
        c.close(e, edges, 'edges', 0, tol)
        c.close(x, (edges[1:] + edges[:-1]) / 2, 'centres', 0, tol)
        for i, q in enumerate(charges):
            q = np.asarray(q, dtype=float)
            inside = q[(q >= lo) & (q <= hi)]
            c.event('charges', q.size)
            c.event('outside', q.size - inside.size)
            if not c.check(np.shape(y[i]) == (fitter.n_bins,), 'bins'):
                return
            c.check(float(np.sum(y[i])) == inside.size, 'conserved',
                    (kinds[i], float(np.sum(y[i])), inside.size, q.size))
            # bin by bin, except for values within rounding of an edge
            pos = (inside - lo) / width
            eps = 1e-6
            if kinds[i] == 'single':  # binned in single precision
                eps += 5e-7 * max(abs(lo), abs(hi)) / width
            far = np.abs(pos - np.rint(pos)) > eps
            lower = np.zeros(fitter.n_bins)
            np.add.at(lower, np.floor(pos[far]).astype(int), 1)
            near = np.zeros(fitter.n_bins)
            for p in np.rint(pos[~far]).astype(int):
                for b in (p - 1, p):
                    if 0 <= b < fitter.n_bins:
                        near[b] += 1
            got = np.asarray(y[i], dtype=float)
            c.check((got >= lower).all() and (got <= lower + near).all(),
                    'bin-contents', lambda: (kinds[i], np.flatnonzero(
                        (got < lower) | (got > lower + near))[:5]))
            # the edges themselves belong to the outer bins
            if (inside == hi).any():
                c.check(got[-1] >= (inside == hi).sum(), 'last-edge')
        filled = all(np.sum(v) > 0 for v in y)
        if filled and fitter.n_bins > 3:
            curve(c, fitter, n_ill)
        c.nontrivial(fitter.n_bins, n_ill, hi - lo, *kinds)
    c.note(n_bins=fitter.n_bins, range=(lo, hi), kinds=kinds)


def curve(c, fitter, n_ill):
    fx, fy = fitter.fit_result_curve
    x, y, e = fitter.charge_histogram
    lo, hi = fitter.range
    tol = 1e-6 * max(abs(lo), abs(hi), 1)
    c.event('curves', n_ill)
    c.check(len(fy) == n_ill, 'curve-number')
    c.check(abs(fx[0] - lo) <= tol and abs(fx[-1] - hi) <= tol
            and np.all(np.diff(fx) > 0), 'curve-range', (fx[0], fx[-1]))
    for i in range(n_ill):
        if not c.check(np.shape(fy[i]) == np.shape(fx), 'curve-shape'):
            continue
        h = np.asarray(y[i], dtype=float)
        w = (hi - lo) / len(h)
        area = float(np.trapz(np.asarray(fy[i], dtype=float),
                              np.asarray(fx, dtype=float)))
        # between the outermost centres or the outermost edges
        a, b = (h.sum() - (h[0] + h[-1]) / 2) * w, h.sum() * w
        c.check(a * (1 - 1e-3) <= area <= b * (1 + 1e-3), 'curve-area',
                (i, area, a, b))


TRUE = dict(eped=0.5, eped_sigma=4.0, spe=25.0, spe_sigma=3.0)


def spectrum(rng, model, n, lam):
    k = rng.poisson(lam, n)
    if model == 'SiPMGentileFitter' and TRUE_OPCT:
        k = k + rng.negative_binomial(np.maximum(k, 1), 1 - TRUE_OPCT) * (
            k > 0)
    return rng.normal(TRUE['eped'] + k * TRUE['spe'], np.sqrt(
        k * TRUE['spe_sigma'] ** 2 + TRUE['eped_sigma'] ** 2))


TRUE_OPCT = 0.25


def make(model, n_ill):
    from CHECLabPy.spectrum_fitters.gentile import SiPMGentileFitter
    from CHECLabPy.spectrum_fitters.mapm import MAPMFitter
    from CHECLabPy.core.spectrum_fitter import SpectrumParameter as P
    fitter = dict(MAPMFitter=MAPMFitter,
                  SiPMGentileFitter=SiPMGentileFitter)[model](n_ill)
    pars = [P('eped', 0, (-10, 10)), P('eped_sigma', 5, (1, 20)),
            P('spe', 24, (10, 40)), P('spe_sigma', 2.5, (0.1, 20)),
            P('lambda_', 0.9, (0.01, 6), multi=True)]
    if model != 'MAPMFitter':
        pars.append(P('opct', 0.2, (0.01, 0.9)))
    fitter.parameters.update(pars)
    fitter.range = (-40, 360)
    fitter.n_bins = 200
    return fitter


def results(fitter):
    return (dict(fitter.fit_result_values), dict(fitter.fit_result_errors))


def same_fit(c, got, want, mech):
    for g, w in zip(got, want):
        c.check(set(g) == set(w), mech, (sorted(g), sorted(w)))
        for k in w:
            c.close(g[k], w[k], mech, 1e-6, 1e-9, k)


def recover(c, model, n_ill):
    rng = c.rng
    fitter = make(model, n_ill)
    lams = [float(v) for v in rng.uniform(0.4, 1.8, n_ill)]
    n = int(rng.choice([4000, 12000]))
    data = [spectrum(rng, model, n, v) for v in lams]
    others = [spectrum(rng, model, 2000, float(rng.uniform(0.3, 2.5))) + 3
              for _ in lams]
    fitter.apply(*data)
    first = results(fitter)
    hist = [np.array(v) for v in fitter.charge_histogram[1]]
    curve(c, fitter, n_ill)
    want = {k + ('' if k != 'lambda_' else ''): v for k, v in TRUE.items()}
    if model != 'MAPMFitter':
        want['opct'] = TRUE_OPCT
    for i, v in enumerate(lams):
        want['lambda_{}'.format(i)] = v
    values, errors = first
    c.check(set(values) == set(want), 'result-names', sorted(values))
    scale = dict(eped=4, eped_sigma=4, spe=25, spe_sigma=10, opct=1)
    for k, v in want.items():
        c.event('recovered')
        tol = 6 * abs(errors[k]) + 0.03 * scale.get(k, 1.5)
        c.check(abs(values[k] - v) <= tol, 'recovery',
                (model, k, values[k], v, errors[k], lams, n))
    # errors describe the statistics: neither absent nor absurd
        c.check(0 < errors[k] < 0.5 * scale.get(k, 3), 'errors',
                (k, errors[k]))
    # other fits in between, then the same again
    fitter.apply(*others)
    fitter.apply(*data)
    c.event('refits')
    same_fit(c, results(fitter), first, 'depends-on-history')
    for a, b in zip(fitter.charge_histogram[1], hist):
        c.equal(a, b, 'histogram-depends-on-history')
    fresh = make(model, n_ill)
    fresh.apply(*data)
    c.event('refits')
    same_fit(c, results(fresh), first, 'depends-on-fitter')
    if n_ill > 1:  # the order of the illuminations is only a name
        fresh.apply(*data[::-1])
        v = dict(fresh.fit_result_values)
        for i in range(n_ill):
            a, b = 'lambda_{}'.format(i), 'lambda_{}'.format(n_ill - 1 - i)
            c.check(abs(v[a] - values[b]) <= 0.3 * errors[b] + 1e-3,
                    'order-of-illuminations', (v[a], values[b]))
    c.note(model=model, n_illuminations=n_ill, lambdas=lams, n=n)
    c.nontrivial(model, n_ill, *(round(v, 1) for v in lams))


@group(quick=12, thorough=250)
def mapm(c):
    recover(c, 'MAPMFitter', (1, 2, 3, 4)[c.index % 4])


@group(quick=6, thorough=100)
def sipm(c):
    recover(c, 'SiPMGentileFitter', 1 if c.index % 3 < 2 else 3 if c.index % 2 else 2)
