"""C19: pulse timing columns describe the pulse in the search window"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Pulses of random shape, position, amplitude, offset and noise are
processed by the real Timing reducer with random windows; time, amplitude,
width and rise time are compared with a reference in double precision written
from the definition, for pixels whose pulse peaks in the search window.
Metamorphic relations: the pulse moved by whole samples, scaled, offset.
Degenerate pulses (flat tops, maxima at the edges) must give zeros. Distinct by
shape, window and relation."""
ASSUMPTIONS = ["""judged for pulses whose peak sample in the window is a local
maximum of the waveform and, for the rise time, at least 91% of the interpolated
peak"""]
REQUIRE = ['pulses', 'widths', 'rises', 'no_crossing', 'degenerate',
           'relations', 'quantised', 'early_windows']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 4
COLS = ['t_event', 't_pulse', 't_pulse_amp', 'fwhm', 't_rise']


def setup():
    import CHECLabPy.waveform_reducers.timing  # noqa


def timing(n_pix, n, **kw):
    from CHECLabPy.waveform_reducers.timing import Timing
    return Timing(n_pix, n, **kw)


def crossing(w, start, step, level):
    """First crossing below `level` from sample `start` on; margin = distance
    of the samples from the level (ill-conditioned if tiny)"""
    n = len(w)
    i = start
    while 0 <= i + step < n:
        a, b = w[i], w[i + step]
        if a >= level >= b and a != b:
            return i + step * (a - level) / (a - b)
        i += step
    return np.nan


def reference(w, lo, hi):
    """(t, amp, fwhm, rise, quality) of one double-precision waveform"""
    base = w[:10].mean()
    p = lo + int(w[lo:hi].argmax())
    y0, y1, y2 = w[p - 1], w[p], w[p + 1]
    b = y0 - 2 * y1 + y2
    t = p + 0.5 * (y0 - y2) / b
    amp = y1 - 0.125 * (y0 - y2) ** 2 / b - base
    r = crossing(w, p, 1, base + amp / 2)
    le = crossing(w, p, -1, base + amp / 2)
    t10 = crossing(w, p, -1, base + 0.1 * amp)
    t90 = crossing(w, p, -1, base + 0.9 * amp)
    return t, amp, r - le, t90 - t10, (y1 - base) / amp if amp else 0


def levels_clear(w, base, amp, eps):
    """No sample so close to a level that rounding decides the crossing"""
    for f in (0.1, 0.5, 0.9):
        if np.abs(w - base - f * amp).min() < eps:
            return False
    return True


def pulses(c, n_pix, n):
    """Pulses of many shapes about a common time"""
    from vlib import files
    x = np.arange(n)
    t0 = c.rng.uniform(14, n - 14)
    jit = c.rng.normal(0, c.rng.choice([0, 1, 3]), (n_pix, 1))
    width = c.rng.uniform(1.2, 6, (n_pix, 1))
    tail = c.rng.uniform(1.5, 12, (n_pix, 1))
    amp = c.rng.uniform(5, 100, (n_pix, 1))
    wf = amp * files.pulse_shape(x, t0 + jit, width, tail)
    wf += c.rng.normal(0, float(c.rng.choice([0, 0.05, 0.3])), wf.shape)
    return wf + c.rng.normal(0, 5, (n_pix, 1)), t0


@group(quick=250, thorough=6000)
def definition(c):
    n_pix = int(c.rng.choice([16, 64]))
    n = int(c.rng.choice([48, 96, 128, 160, 300]))
    wf, t0 = pulses(c, n_pix, n)
    from vlib import files
    cut = str(c.rng.choice(['', '', 'plateau-left', 'plateau-right']))
    if cut == 'plateau-left':  # never falls below half on the left
        wf = np.where(np.arange(n) < t0 - 1, np.maximum(
            wf, 0.7 * wf.max(1)[:, None]), wf)
    elif cut == 'plateau-right':
        wf = np.where(np.arange(n) > t0 + 1, np.maximum(
            wf, 0.7 * wf.max(1)[:, None]), wf)
    elif c.rng.random() < 0.3:  # another pulse, about the window's end
        x = np.arange(n) - c.rng.integers(3, 14, (n_pix, 1)) * float(
            c.rng.choice([1, 1, -1]))
        wf += np.ptp(wf, 1)[:, None] * c.rng.uniform(1, 2) * \
            files.pulse_shape(x, t0, 1.5, 2.5)
        cut = 'two'
    dtype = np.float32 if c.rng.random() < 0.6 else np.float64
    wf = wf.astype(dtype)
    if c.rng.random() < 0.2:  # event time exactly about the limits
        edge = int(c.rng.choice([0, 8, 9, 10, 11, n - 12, n - 11, n - 10,
                                 n - 9, n - 8, n - 1]))
        wf[0, edge] += 3 * n_pix * (np.abs(wf).max() + 1)
        c.event('peaks_at_limits')
    kw = {}
    if c.rng.random() < 0.6:
        kw['window_size'] = int(c.rng.integers(2, 30))
        kw['window_shift'] = int(c.rng.integers(0, 15))
    if c.rng.random() < 0.4:
        kw['t_extract'] = int(np.clip(round(t0) + c.rng.integers(-3, 4),
                                      0, n - 1))
    if cut == 'two' and c.rng.random() < 0.4:  # begins before the waveform
        t = kw['t_extract'] = int(np.clip(round(t0), 0, n - 1))
        kw['window_shift'] = t + int(c.rng.integers(0, 8))
        kw['window_size'] = kw['window_shift'] + int(c.rng.integers(-1, 6))
        c.event('early_windows')
    d = {k: np.array(v) for k, v in timing(n_pix, n, **kw).process(
        wf).items()}
    c.check(sorted(d) == sorted(COLS), 'columns', sorted(d))
    w = wf.astype(np.float64)
    from vlib import ref
    ts = [kw['t_extract']] if 't_extract' in kw else ref.event_times(w)
    c.check(set(np.unique(d['t_event'])) <= set(ts), 'value-t_event',
            (d['t_event'], ts))
    t_event = int(np.unique(d['t_event'])[0])
    lo = t_event - kw.get('window_shift', 4)
    hi = min(lo + kw.get('window_size', 8), n)
    lo = max(lo, 0)
    c.note(n=n, window=(lo, hi), cut=cut, dtype=dtype.__name__, **kw)
    if hi <= lo:
        return
    eps = (1e-5 if dtype is np.float32 else 1e-9) * (np.abs(w).max() + 1)
    for i in range(n_pix):
        p = lo + int(w[i, lo:hi].argmax())
        if not 1 <= p <= n - 2:
            continue
        y0, y1, y2 = w[i, p - 1:p + 2]
        b = abs(y0 - 2 * y1 + y2)
        # genuine peak, not decided by rounding
        if not (y1 > y0 + 4 * eps and y1 > y2 + 4 * eps and b > 300 * eps):
            continue
        if (np.sort(w[i, lo:hi])[-2:] == y1).all():
            continue
        t, amp, fwhm, rise, q = reference(w[i], lo, hi)
        c.event('pulses')
        c.close(d['t_pulse'][i], t, 'value-t_pulse', 0, 0.01, (i, p))
        c.close(d['t_pulse_amp'][i], amp, 'value-t_pulse_amp', 1e-4, 20 * eps,
                (i, p))
        if amp < 100 * eps or q < 0.6:
            continue
        # slopes at the crossings decide the accuracy
        if not levels_clear(w[i], w[i, :10].mean(), amp, 20 * eps):
            continue
        tol = 0.05
        ok = _steep(w[i], p, amp, w[i, :10].mean(), (0.5,), 2000 * eps)
        if ok or np.isnan(fwhm):
            c.event('no_crossing' if np.isnan(fwhm) else 'widths')
            c.close(d['fwhm'][i], fwhm, 'value-fwhm', 0, tol, (i, p, cut))
        if q < 0.91:
            continue
        ok = _steep(w[i], p, amp, w[i, :10].mean(), (0.1, 0.9), 2000 * eps)
        if ok or np.isnan(rise):
            c.event('no_crossing' if np.isnan(rise) else 'rises')
            c.close(d['t_rise'][i], rise, 'value-t_rise', 0, tol, (i, p, cut))
    c.nontrivial(n, hi - lo, cut, sorted(kw))


def _steep(w, p, amp, base, fractions, least):
    for f in fractions:
        for step in (1, -1) if f == 0.5 else (-1,):
            x = crossing(w, p, step, base + f * amp)
            if np.isnan(x):
                continue
            i = int(np.floor(x))
            if i + 1 >= len(w) or abs(w[i + 1] - w[i]) < least:
                return False
    return True


@group(quick=150, thorough=4000)
def relations(c):
    """Moving, scaling and offsetting the pulses"""
    from vlib import files
    n_pix, n = 32, 128
    x = np.arange(n)
    t0 = int(c.rng.integers(35, 75))
    width = c.rng.uniform(1.5, 5, (n_pix, 1))
    tail = c.rng.uniform(2, 8, (n_pix, 1))
    amp = c.rng.uniform(20, 100, (n_pix, 1))
    frac = c.rng.uniform(-.45, .45, (n_pix, 1))
    wf = amp * files.pulse_shape(x, t0 + frac, width, tail)
    wf[wf < 1e-6] = 0
    kw = dict(window_size=int(c.rng.integers(5, 14)), window_shift=3)
    if c.rng.random() < 0.5:
        kw['window_size'] = max(kw['window_size'], 4)
    r = timing(n_pix, n, t_extract=t0, **kw)
    a = {k: np.array(v) for k, v in r.process(wf).items()}
    c.check(np.isfinite(a['fwhm']).all() and np.isfinite(a['t_rise']).all()
            and (a['fwhm'] > 0).all() and (a['t_rise'] > 0).all(),
            'width-missing', lambda: (a['fwhm'], a['t_rise']))
    # moved by whole samples
    k = int(c.rng.integers(-15, 20))
    moved = amp * files.pulse_shape(x, t0 + k + frac, width, tail)
    moved[moved < 1e-6] = 0
    b = timing(n_pix, n, t_extract=t0 + k, **kw).process(moved)
    # the tail enters the baseline of the first samples: keep it away
    quiet = (wf[:, :10].max(1) < 1e-3) & (moved[:, :10].max(1) < 1e-3)
    # and the crossings inside the waveform
    c.note(t0=t0, moved=k, **kw)
    c.event('relations', int(quiet.sum()))
    c.close(b['t_pulse'][quiet] - k, a['t_pulse'][quiet], 'moved-t_pulse', 0,
            1e-3)
    for col in ('fwhm', 't_rise'):
        c.close(b[col][quiet], a[col][quiet], 'moved-' + col, 0, 1e-2)
    c.close(b['t_pulse_amp'][quiet], a['t_pulse_amp'][quiet], 'moved-amp',
            1e-4, 1e-3)
    # scaled
    f = float(c.rng.choice([0.125, 3.7, 1000, 1e-3]))
    b = r.process(wf * f)
    for col in ('t_pulse', 'fwhm', 't_rise'):
        c.close(b[col], a[col], 'scaled-' + col, 0, 1e-6)
    c.close(b['t_pulse_amp'], a['t_pulse_amp'] * f, 'scaled-amp', 1e-6,
            1e-9 * f)
    # offset
    off = float(c.rng.uniform(-200, 200))
    b = r.process(wf + off)
    for col in ('t_pulse', 't_pulse_amp', 'fwhm', 't_rise'):
        c.close(b[col], a[col], 'offset-' + col, 1e-6, 1e-6)
    # single precision
    b = r.process(wf.astype(np.float32))
    c.close(b['t_pulse'], a['t_pulse'], 'float32-t_pulse', 0, 1e-2)
    c.close(b['fwhm'], a['fwhm'], 'float32-fwhm', 0, 2e-2)
    c.event('relations', 4 * n_pix)
    c.nontrivial(t0, k, f, kw['window_size'])


@group(quick=40, thorough=1000)
def degenerate(c):
    """No parabola: zeros; the other pixels are not affected"""
    n_pix, n = 24, 96
    wf, t0 = pulses(c, n_pix, n)
    t = int(np.clip(round(t0), 14, n - 15))
    kind = str(c.rng.choice(['flat-top', 'constant', 'first', 'last']))
    kw = dict(window_size=10, window_shift=5, t_extract=t)
    bad = c.rng.permutation(n_pix)[:8]
    level = np.float64(c.rng.choice([64., 128.]))
    if kind == 'flat-top':
        wf[bad, t - 8:t + 9] = level * 4
    elif kind == 'constant':
        wf[bad] = float(c.rng.choice([0, 3, -7]))
    elif kind == 'first':
        kw['t_extract'] = t = int(c.rng.integers(0, 6))
        wf[bad, 0] = level * 8
    else:
        kw['t_extract'] = t = int(c.rng.integers(n - 5, n))
        wf[bad, n - 1] = level * 8
    c.note(kind=kind, **kw)
    d = timing(n_pix, n, **kw).process(wf)
    for col in ('t_pulse', 't_pulse_amp', 'fwhm', 't_rise'):
        c.event('degenerate', len(bad))
        c.equal(np.asarray(d[col])[bad], np.zeros(len(bad)),
                'degenerate-' + col, kind)
        c.check(np.asarray(d[col]).shape == (n_pix,), 'shape', col)
    c.nontrivial(kind, t)


@group(quick=30, thorough=600)
def limits(c):
    """The event time of an average that peaks at each sample near an edge"""
    from vlib import ref
    n_pix = int(c.rng.choice([2, 16, 64]))
    n = int(c.rng.choice([24, 48, 96, 128, 260]))
    r = timing(n_pix, n)
    for edge in [*range(13), *range(n - 13, n)]:
        wf = c.rng.normal(0, 1, (n_pix, n)).astype(
            np.float32 if c.index % 2 else np.float64)
        # one bright pixel, or all of them a little
        if c.rng.random() < 0.5:
            wf[c.rng.integers(n_pix), edge] += 50 * n_pix
        else:
            wf[:, edge] += 50
        d = r.process(wf)
        c.event('peaks_at_limits')
        c.check(int(np.unique(d['t_event'])[0]) in ref.event_times(wf)
                and np.unique(d['t_event']).size == 1, 'value-t_event',
                (edge, n, d['t_event'], ref.event_times(wf)))
    c.nontrivial(n_pix, n)


@group(quick=120, thorough=4000)
def quantised(c):
    """Integer-valued samples: samples that equal each other and the levels,
    and pulses of any sign; a symmetric peak gives exact half-maximum levels"""
    n_pix, n = 64, int(c.rng.choice([32, 96]))
    step = float(c.rng.choice([1, 0.25, 16]))
    top = int(c.rng.choice([2, 4, 20]))
    wf = c.rng.integers(-top, top + 1, (n_pix, n)).astype(float)
    if c.rng.random() < 0.6:  # few levels in a row, as in a staircase
        wf = np.repeat(wf[:, ::4], 4, axis=1)[:, :n]
    wf[:, :10] = 0
    t = int(c.rng.integers(14, n - 12))
    what = str(c.rng.choice(['positive', 'negative', 'zero', 'any']))
    p = t + c.rng.integers(-2, 3, n_pix)
    i = np.arange(n_pix)
    lo, hi = t - 4, t + 4
    peak = {'positive': 2 * top, 'negative': -1, 'zero': 0, 'any': 0}[what]
    if what != 'any':  # the maximum in the window is a symmetric peak
        wf[:, lo - 1:hi + 1] = np.minimum(wf[:, lo - 1:hi + 1], peak - 1)
        wf[i, p] = peak
        side = wf[i, p - 1]
        wf[i, p + 1] = side
    wf *= step
    dtype = np.float32 if c.rng.random() < 0.5 else np.float64
    d = timing(n_pix, n, t_extract=t).process(wf.astype(dtype))
    c.note(what=what, t=t, top=top, step=step)
    for k in COLS:
        v = np.asarray(d[k], float)
        c.check(not np.isinf(v).any(), 'quantised-infinite', k)
    c.event('quantised', n_pix)
    if what == 'any':
        c.nontrivial(what, top, step)
        return
    for j in range(n_pix):
        tt, amp, fwhm, rise, q = reference(wf[j], lo, hi)
        c.close(d['t_pulse'][j], tt, 'quantised-t_pulse', 0, 1e-4, j)
        c.close(d['t_pulse_amp'][j], amp, 'quantised-amp', 1e-5, 1e-6, j)
        if what == 'positive':
            c.event('widths')
            c.close(d['fwhm'][j], fwhm, 'quantised-fwhm', 0, 1e-3,
                    (j, wf[j]))
            if levels_clear(wf[j], 0, amp, 1e-3):
                c.close(d['t_rise'][j], rise, 'quantised-t_rise', 0, 1e-3,
                        (j, wf[j]))
    c.nontrivial(what, top, step)
