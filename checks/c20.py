"""C20: compiled routines stay inside their pixel's waveform"""
import os

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """All compiled routines are compiled with index checking on and run on
every kind of input that steers their indices: peaks at and around both ends,
windows reaching outside, corrections beyond the waveform, few samples, odd
memory layouts. In addition the arrays are embedded in larger buffers filled
with poison (NaN, huge values): results must equal those without poison, and
poison and inputs must be unchanged. Distinct by routine, layout and
situation."""
ASSUMPTIONS = ["""search windows inside the waveform are given to the timing
routine as its reducer does (start >= 0, not empty)"""]
REQUIRE = ['bounds_checked', 'poisoned', 'edges', 'layouts', 'sensor_alive']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 2


def setup():
    # before numba is imported: every routine is compiled with index checks
    os.environ['NUMBA_BOUNDSCHECK'] = '1'
    import CHECLabPy.core.chain  # noqa
    import CHECLabPy.calib.time_calibrator  # noqa


def embed(c, arr, poison):
    """The same array inside a poisoned buffer, with a random layout"""
    kind = str(c.rng.choice(['padded', 'strided', 'fortran', 'reversed']))
    n_pix, n = arr.shape
    if kind == 'padded':
        buf = np.full((n_pix + 4, n + 6), poison, arr.dtype)
        view = buf[2:2 + n_pix, 3:3 + n]
    elif kind == 'strided':
        buf = np.full((2 * n_pix + 2, 2 * n + 2), poison, arr.dtype)
        view = buf[1:1 + 2 * n_pix:2, 1:1 + 2 * n:2]
    elif kind == 'fortran':
        buf = np.full((n_pix + 4, n + 6), poison, arr.dtype, order='F')
        view = buf[2:2 + n_pix, 3:3 + n]
    else:
        buf = np.full((n_pix + 4, n + 6), poison, arr.dtype)
        view = buf[1 + n_pix:1:-1, 2 + n:2:-1]
    assert view.shape == arr.shape
    view[:] = arr
    c.event('layouts')
    return kind, buf, view


def flat(res):
    return [np.array(r, copy=True) for r in
            (res if isinstance(res, tuple) else (res,))]


def judge(c, name, call, arr):
    """call(arr): bounds checks, poison, inputs, pixel independence"""
    import warnings
    before = arr.tobytes()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        want = flat(call(arr))
        c.event('bounds_checked')
        c.check(arr.tobytes() == before, 'input-changed-' + name)
        for poison in (np.nan, 3e37, -3e37):
            kind, buf, view = embed(c, arr, poison)
            copy = buf.tobytes()
            got = flat(call(view))
            c.event('poisoned')
            c.check(buf.tobytes() == copy, 'memory-changed-' + name,
                    (kind, poison))
            for g, w in zip(got, want):
                c.close(g, w, 'reads-outside-' + name, 1e-5, 1e-5,
                        (kind, poison))
        # Other pixels hold poison
        n_pix = len(arr)
        keep = int(c.rng.choice([0, n_pix - 1, c.rng.integers(n_pix)]))
        for poison in (np.nan, 3e37):
            other = np.full_like(arr, poison)
            other[keep] = arr[keep]
            got = flat(call(other))
            c.event('poisoned')
            for g, w in zip(got, want):
                if g.ndim and g.shape[0] == n_pix:
                    c.close(g[keep], w[keep], 'reads-other-pixel-' + name,
                            1e-5, 1e-5, (keep, poison))


def waves(c, n_pix, n, t0=None):
    """Pulses whose maxima sit anywhere, including both ends"""
    from vlib import files
    x = np.arange(n)
    if t0 is None:
        t0 = c.rng.choice([0, 1, 2, n // 2, n - 3, n - 2, n - 1,
                           -3, n + 3], (n_pix, 1))
    wf = c.rng.uniform(1, 50, (n_pix, 1)) * files.pulse_shape(
        x, t0, c.rng.uniform(.5, 5, (n_pix, 1)),
        c.rng.uniform(.5, 30, (n_pix, 1)))
    wf += c.rng.normal(0, float(c.rng.choice([0, 0.3, 3])), wf.shape)
    what = c.rng.random()
    if what < 0.1:
        wf[:] = float(c.rng.choice([0, 7]))
    elif what < 0.25:  # ramps: maxima at the ends, crossings missing
        wf = np.outer(c.rng.choice([-1, 1], n_pix), x) * 1.0
    return wf.astype(np.float32 if c.rng.random() < 0.6 else np.float64)


@group(quick=2, thorough=4)
def sensor(c):
    """The index checks are on: a deliberate error is noticed"""
    from numba import njit, guvectorize, config

    @njit
    def f(a, i):
        return a[i]

    @guvectorize(['(float64[:], int64, float64[:])'], '(s),()->()',
                 nopython=True)
    def g(a, i, r):
        r[0] = a[i]
    c.check(bool(config.BOUNDSCHECK), 'harness-sensor')
    c.raises(IndexError, lambda: f(np.zeros(3), 5), 'harness-sensor', 'njit')
    c.raises(IndexError, lambda: g(np.zeros((2, 3)), 5), 'harness-sensor',
             'guvectorize')
    c.event('sensor_alive')
    c.nontrivial('sensor')


@group(quick=60, thorough=3000)
def time_correction(c):
    from CHECLabPy.calib.time_calibrator import apply_t_cor
    n_pix = int(c.rng.integers(1, 9))
    n = int(c.rng.choice([2, 3, 16, 64, 128, 300]))
    wf = waves(c, n_pix, n)
    cor = c.rng.choice([0, 1, -1, 0.5, -0.5, 1e-9, -1e-9, n - 1, n, n + 1,
                        1 - n, -n, -n - 1, 3 * n, -3 * n, n - 1.5,
                        1.5 - n], n_pix)
    if c.rng.random() < 0.4:
        cor = c.rng.uniform(-1.5 * n, 1.5 * n, n_pix)
    # more corrections than pixels, as for a single module
    extra = int(c.rng.integers(0, 5))
    full = np.concatenate([cor, np.full(extra, np.nan)]).astype(float)
    c.note(n_pix=n_pix, n=n, cor=cor)
    c.event('edges', int((np.abs(cor) >= 1).sum()))
    judge(c, 'apply_t_cor', lambda w: apply_t_cor(w, full), wf)
    c.nontrivial('t_cor', n_pix, n, np.round(cor, 3).tolist())


@group(quick=60, thorough=3000)
def pulse_timing(c):
    from CHECLabPy.waveform_reducers.timing import obtain_pulse_timing
    n_pix = int(c.rng.integers(1, 9))
    n = int(c.rng.choice([16, 32, 64, 128, 260]))
    wf = waves(c, n_pix, n)
    if c.rng.random() < 0.5:
        start = int(c.rng.choice([0, 0, 1, n - 4, n - 2, n - 1, n // 2]))
        end = start + int(c.rng.integers(1, 12))
    else:
        start, end = 0, int(c.rng.choice([n, n + 5, 2]))
    c.note(n_pix=n_pix, n=n, window=(start, end))
    c.event('edges', int(start < 2 or end > n - 2))
    judge(c, 'obtain_pulse_timing',
          lambda w: obtain_pulse_timing(w, start, end), wf)
    c.nontrivial('timing', n_pix, n, start, end)


@group(quick=60, thorough=3000)
def pulse_time(c):
    from CHECLabPy.waveform_reducers.cross_correlation import \
        extract_pulse_time
    n_pix = int(c.rng.integers(1, 9))
    n = int(c.rng.choice([2, 3, 16, 64, 128, 300]))
    wf = waves(c, n_pix, n)
    where = c.rng.choice([0, 1, n // 2, max(n - 2, 0), n - 1], n_pix)
    single = bool(c.rng.random() < 0.3)
    if single:
        where = where[0]
    c.note(n_pix=n_pix, n=n, peak=where)
    c.event('edges', int(np.sum((np.asarray(where) < 1)
                                | (np.asarray(where) > n - 2))))
    judge(c, 'extract_pulse_time', lambda w: extract_pulse_time(w, where), wf)
    t = extract_pulse_time(wf, where)
    c.check(((t >= 0) & (t < n)).all(), 'time-outside', t)
    c.nontrivial('pulse_time', n_pix, n, np.ravel(where).tolist())


@group(quick=30, thorough=1200)
def reducers(c):
    """The reducers feed the routines only valid positions"""
    from CHECLabPy.waveform_reducers.timing import Timing
    from CHECLabPy.waveform_reducers import cross_correlation as m
    from vlib import reduce
    n_pix, n = 16, int(c.rng.choice([32, 64, 128]))
    t0 = float(c.rng.choice([-2, 0, 1, 8, n - 9, n - 2, n - 1, n + 2]))
    wf = waves(c, n_pix, n, t0)
    kw = {}
    if c.rng.random() < 0.7:
        kw['window_shift'] = int(c.rng.integers(0, 10))
        kw['window_size'] = kw['window_shift'] + int(c.rng.integers(1, 30))
    if c.rng.random() < 0.5:
        kw['t_extract'] = int(c.rng.choice([0, 1, 5, n - 5, n - 1]))
    c.note(n=n, t0=t0, **kw)
    c.event('edges')
    judge(c, 'Timing', lambda w: tuple(
        np.broadcast_to(v, (n_pix,)) if k != 't_event' else np.asarray(v)
        for k, v in sorted(Timing(n_pix, n, **{'t_extract': 12, **kw}
                                  ).process(w).items())), wf)
    ref = reduce.PULSES[0]
    judge(c, 'CrossCorrelationLocal', lambda w: tuple(
        v for _, v in sorted(m.CrossCorrelationLocal(
            n_pix, n, reference_pulse_path=ref).process(w).items())), wf)
    # without explicit time the event time is that of the average
    d = Timing(n_pix, n, **kw).process(wf)
    d2 = m.CrossCorrelation(n_pix, n, reference_pulse_path=ref).process(wf)
    c.event('bounds_checked', 2)
    c.check(((d['t_pulse'] >= 0) & (d['t_pulse'] < n)).all(), 'time-outside')
    c.check(((d2['t_cc'] >= 0) & (d2['t_cc'] < n)).all(), 'time-outside')
    c.nontrivial('reducers', n, t0, sorted(kw.items()))


@group(quick=16, thorough=600)
def spectra(c):
    """Spectra: each x value on its own, whatever the memory around"""
    from CHECLabPy.spectrum_fitters.mapm import mapm_spe
    from CHECLabPy.spectrum_fitters.gentile import sipm_gentile_spe
    n = int(c.rng.choice([1, 2, 7, 100, 1000]))
    par = (c.rng.uniform(-5, 5), c.rng.uniform(1, 10), c.rng.uniform(5, 40),
           c.rng.uniform(0.1, 10))
    lam = c.rng.uniform(0.05, 6)
    x = np.sort(c.rng.uniform(-50, 300, n)).astype(np.float32)
    for name, f in (
            ('mapm', lambda x: mapm_spe(x, *par, lam)),
            ('gentile', lambda x: sipm_gentile_spe(x, *par, 0.3, lam))):
        before = x.tobytes()
        want = np.array(f(x))
        c.event('bounds_checked')
        c.check(x.tobytes() == before, 'input-changed-' + name)
        c.check(want.shape == x.shape, 'shape-' + name)
        for poison in (np.nan, 1e30):
            buf = np.full(n + 40, poison, np.float32)
            view = buf[20:20 + n]
            view[:] = x
            copy = buf.tobytes()
            got = np.array(f(view))
            c.event('poisoned')
            c.check(buf.tobytes() == copy, 'memory-changed-' + name)
            c.close(got, want, 'reads-outside-' + name, 1e-6, 1e-15)
        if n > 1:
            k = int(c.rng.integers(n))
            other = np.full(n, 1e30, np.float32)
            other[k] = x[k]
            c.close(f(other)[k], want[k], 'reads-other-point-' + name, 1e-6,
                    1e-15)
    c.nontrivial('spectra', n)
