"""C18: window extractors integrate the window at their defining peak"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random events, cameras and window settings are processed by the real
sliding-window and peak-window reducers; the charges are compared with brute
force over every window position of every pixel, the extraction times with the
integrated samples. Distinct by reducer, settings and event kind."""
ASSUMPTIONS = ["""stand-ins for ctapipe's window sum, pulse time and neighbour
average functions, written from their documentation"""]
REQUIRE = ['values', 'windows_at_edges', 'times']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 2


def setup():
    import CHECLabPy.core.chain  # noqa


def all_windows(w, size):
    """Sum of the existing samples of s..s+size-1 for every s"""
    n = w.shape[1]
    cum = np.concatenate([np.zeros((len(w), 1)), w.cumsum(1)], axis=1)
    s = np.arange(n)
    return cum[:, np.minimum(s + size, n)] - cum[:, s]


@group(quick=120, thorough=5000)
def sliding(c):
    from CHECLabPy.waveform_reducers import sliding_window as m
    from vlib import reduce, ref, camera
    name = str(c.rng.choice(['module', 'quad']))
    mapping = camera.mapping_of(name)
    n_pix = len(mapping)
    n = int(c.rng.choice([32, 64, 128, 131, 300]))
    size = int(c.rng.integers(1, 31))
    kw = dict(window_size=size)
    if c.rng.random() < 0.15:
        kw, size = {}, 8
    if c.rng.random() < 0.3:
        kw['window_shift'] = 3  # not a setting of these reducers
    if c.rng.random() < 0.5:
        wf, kind = reduce.event(c.rng, n_pix, n)
    else:
        wf = reduce.spread(c.rng, n_pix, n).astype(np.float32)
        kind = 'spread'
    c.note(camera=name, n_samples=n, kind=kind, **kw)
    w = wf.astype(np.float64)
    sums = all_windows(w, size)
    eps = 1e-5 * size * (np.abs(w).max() + 1e-6)
    nn = ref.neighbour_average(w, camera.neighbours(mapping))
    where = dict(
        sliding=np.tile(sums.mean(0), (n_pix, 1)), sliding_local=sums,
        sliding_nn=all_windows(nn, size))
    cls = dict(sliding=m.SlidingWindow, sliding_local=m.SlidingWindowLocal,
               sliding_nn=m.SlidingWindowNeighbour)
    for k, r in cls.items():
        d = r(n_pix, n, mapping=mapping, **kw).process(wf)
        q, t = np.asarray(d['charge_' + k]), np.asarray(d['t_' + k])
        cand = where[k] >= where[k].max(1)[:, None] - 2 * eps
        miss = np.where(cand, np.abs(sums - q[:, None]), np.inf).min(1)
        c.event('values', n_pix)
        c.check((miss <= 4 * eps).all(), 'charge-' + k,
                lambda: (kind, miss.max(), eps))
        one = cand.sum(1) == 1
        s = where[k].argmax(1)
        c.event('windows_at_edges', int(((s + size > n) | (s == 0)).sum()))
        c.event('times', int(one.sum()))
        inside = (t >= s - 1e-6) & (t <= np.minimum(s + size, n) - 1 + 1e-6)
        c.check((inside | ~one).all(), 'time-outside-window-' + k,
                lambda: (t[~inside & one], s[~inside & one], size))
        if k == 'sliding_local':
            full = sums[:, :n - size + 1].max(1)
            c.check((q >= full - 4 * eps).all(), 'local-not-maximal',
                    lambda: (q - full).min())
        c.nontrivial(k, kind, size, n)
    c.raises(ValueError, lambda: m.SlidingWindowNeighbour(n_pix, n),
             'no-mapping')


@group(quick=80, thorough=4000)
def peak_windows(c):
    from CHECLabPy.waveform_reducers import ctapipe_integrators as m
    from vlib import reduce, ref, camera
    name = str(c.rng.choice(['module', 'quad']))
    mapping = camera.mapping_of(name)
    n_pix = len(mapping)
    n = int(c.rng.choice([32, 64, 128, 200]))
    kw = {}
    if c.rng.random() < 0.8:
        kw['window_size'] = int(c.rng.integers(1, 21))
    if c.rng.random() < 0.8:
        kw['window_shift'] = int(c.rng.integers(0, 15))
    size, shift = kw.get('window_size', 6), kw.get('window_shift', 3)
    wf = reduce.spread(c.rng, n_pix, n).astype(np.float32)
    if c.rng.random() < 0.3:
        wf, _ = reduce.event(c.rng, n_pix, n)
    c.note(camera=name, n_samples=n, **kw)
    w = wf.astype(np.float64)
    eps = 1e-5 * size * (np.abs(w).max() + 1e-6)
    nn = ref.neighbour_average(w, camera.neighbours(mapping))
    cum = np.concatenate([np.zeros((n_pix, 1)), w.cumsum(1)], axis=1)
    for k, cls, where in (('local', m.CtapipeLocalPeakIntegrator, w),
                          ('nn', m.CtapipeNeighbourPeakIntegrator, nn)):
        d = cls(n_pix, n, mapping=mapping, **kw).process(wf)
        q, t = np.asarray(d['charge_' + k]), np.asarray(d['t_' + k])
        p = np.arange(n)
        lo, hi = np.clip(p - shift, 0, n), np.clip(p - shift + size, 0, n)
        sums = cum[:, hi] - cum[:, lo]  # for each possible peak
        tol = 1e-6 * np.abs(w).max()
        cand = where >= where.max(1)[:, None] - tol
        miss = np.where(cand, np.abs(sums - q[:, None]), np.inf).min(1)
        c.event('values', n_pix)
        c.check((miss <= 4 * eps).all(), 'charge-' + k,
                lambda: (miss.max(), eps))
        peak = where.argmax(1)
        c.event('windows_at_edges', int(
            ((peak - shift < 0) | (peak - shift + size > n)).sum()))
        # where the window holds signal the time is inside it
        pos = w[np.arange(n_pix), peak] > 0
        one = (cand.sum(1) == 1) & pos
        if 0 <= shift < size:
            a = np.clip(peak - shift, 0, n - 1)
            b = np.clip(peak - shift + size - 1, 0, n - 1)
            ok = (t >= a - 1e-6) & (t <= b + 1e-6)
            c.check((ok | ~one).all(), 'time-outside-window-' + k,
                    lambda: t[~ok & one])
            c.event('times', int(one.sum()))
        c.nontrivial(k, size, shift, n)
    c.raises(ValueError, lambda: m.CtapipeNeighbourPeakIntegrator(n_pix, n),
             'no-mapping')
