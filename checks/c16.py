"""C16: waveform summary columns have their documented values"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random events (pulses, noise, flat, saturated, pulses at and beyond
the edges) with 32 to 200 samples, window settings that reach outside the
waveform and explicit extraction times are processed by the real reducers and
every value is compared with an independent definition in double precision.
Where rounding decides an argmax, any admissible sample is accepted. Distinct
by kind of event, sample count and settings."""
ASSUMPTIONS = ["at least 32 samples; the flasher column needs 2048 pixels"]
REQUIRE = ['values', 'windows_outside', 'flashers', 'superpixels', 'exact_thresholds']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.core.chain  # noqa


@group(quick=150, thorough=6000)
def columns(c):
    from CHECLabPy.waveform_reducers.common import Common
    from CHECLabPy.waveform_reducers.average_wf import AverageWF
    from CHECLabPy.waveform_reducers.saturation import Saturation
    from CHECLabPy.waveform_reducers.superpixel import SPAmplitude
    from vlib import reduce, ref
    n_pix = int(c.rng.choice([4, 16, 64, 256]))
    n = int(c.rng.choice([32, 40, 96, 127, 128, 200]))
    dtype = np.float32 if c.rng.random() < 0.7 else np.float64
    wf, kind = reduce.event(c.rng, n_pix, n, dtype)
    if c.rng.random() < 0.2:  # one odd pixel dominates
        wf[int(c.rng.integers(n_pix))] *= 100
    if c.rng.random() < 0.3:  # average peak exactly about the limits
        edge = int(c.rng.choice([0, 8, 9, 10, 11, n - 12, n - 11, n - 10,
                                 n - 9, n - 8, n - 1]))
        wf[:, edge] = 3 * np.abs(wf).max() + 1
        kind = 'limit'
        c.event('peaks_at_limits')
    kw = {}
    if c.rng.random() < 0.6:
        kw['window_size'] = int(c.rng.integers(0, 40))
    if c.rng.random() < 0.6:
        kw['window_shift'] = int(c.rng.integers(-10, 40))
    if c.rng.random() < 0.4:
        kw['t_extract'] = int(c.rng.choice(
            [0, 1, 3, 9, 10, n // 2, n - 11, n - 3, n - 1]))
    c.note(n_pix=n_pix, n_samples=n, kind=kind, dtype=dtype.__name__, **kw)
    w = wf.astype(np.float64)
    tol = 2e-5 * (np.abs(w).max() + 1)

    def close(col, got, want, factor=1):
        c.event('values', n_pix)
        c.close(got, want, 'value-' + col, 1e-5, tol * factor, col)

    d = Common(n_pix, n).process(wf)
    for k, v in ref.common(w).items():
        close(k, d[k], v)
    ts = [kw['t_extract']] if 't_extract' in kw else ref.event_times(wf)
    d = AverageWF(n_pix, n, **kw).process(wf)
    got_t = np.unique(d['t_averagewf'])
    c.check(len(got_t) == 1 and got_t[0] in ts, 'value-t_averagewf',
            (got_t, ts))
    t = int(got_t[0])
    size, shift = kw.get('window_size', 6), kw.get('window_shift', 3)
    if t - shift < 0 or t - shift + size > n:
        c.event('windows_outside')
    close('charge_averagewf', d['charge_averagewf'],
          ref.window_sum(w, t - shift, t - shift + size), max(size, 1))
    d = Saturation(n_pix, n, **kw).process(wf)
    shift = kw.get('window_shift', 4)
    got = d['saturation_sum']
    want = min((ref.window_sum(w, t - shift, n) for t in ts),
               key=lambda v: np.abs(v - got).max())
    close('saturation_sum', got, want, n)
    d = SPAmplitude(n_pix, n).process(wf)
    sp = w.reshape(-1, 4, n).sum(1)
    close('sp_max', d['sp_max'], np.repeat(sp.max(1), 4), 4)
    arg = np.asarray(d['sp_argmax'])
    if c.check(arg.shape == (n_pix,) and (arg >= 0).all()
               and (arg < n).all(), 'value-sp_argmax', arg):
        at = sp[np.repeat(np.arange(len(sp)), 4), arg.astype(int)]
        close('sp_argmax', at, np.repeat(sp.max(1), 4), 8)
        c.equal(arg, np.repeat(arg[::4], 4), 'value-sp_argmax-shared')
    c.event('superpixels', len(sp))
    c.nontrivial(kind, n, n_pix, sorted(kw.items()))


@group(quick=20, thorough=400)
def short(c):
    """Waveforms shorter than the baseline regions: all existing samples"""
    from CHECLabPy.waveform_reducers.common import Common
    from vlib import ref
    n_pix, n = int(c.rng.choice([4, 16])), int(c.rng.integers(2, 24))
    wf = c.rng.normal(0, 10, (n_pix, n)).astype(np.float32)
    c.note(n_pix=n_pix, n_samples=n)
    for k, v in Common(n_pix, n).process(wf).items():
        c.event('values', n_pix)
        c.close(v, ref.common(wf.astype(np.float64))[k], 'value-' + k, 1e-5,
                1e-3, k)
    c.nontrivial('short', n)


MODULES = [5, 23, 8, 26]  # the modules at the corners, by flasher unit


@group(quick=60, thorough=2000)
def flashers(c):
    from CHECLabPy.waveform_reducers.flag_flasher import FlagFlashers
    n = 128
    wf = c.rng.normal(0, 2, (2048, n)).astype(np.float32)
    # amplitude per module; corner modules around the 30 threshold
    amp = c.rng.uniform(0, 60, 32)
    what = str(c.rng.choice(['random', 'flash', 'one-low', 'no-corner',
                             'threshold', 'exact',
                             'uneven', 'bright-neighbours',
                             'single-pixels']))
    if what in ('flash', 'one-low', 'uneven'):
        amp[MODULES] = c.rng.uniform(31, 300, 4)
    if what == 'one-low':
        amp[MODULES[int(c.rng.integers(4))]] = c.rng.uniform(2, 29.5)
    if what == 'bright-neighbours':  # other modules must not contribute
        amp[:] = 1e5
        amp[MODULES] = c.rng.uniform(28 if c.rng.random() < .5 else 31, 60, 4)
    if what == 'threshold':  # 29.x or 30.x
        amp[MODULES] = c.rng.uniform(30.05, 60, 4)
        amp[c.rng.choice(MODULES)] = 30 + c.rng.uniform(0.05, 0.9) * (
            1 if c.rng.random() < 0.7 else -1)
    if what == 'no-corner':
        amp[:] = 200
        amp[MODULES] = c.rng.uniform(5, 20, 4)
    t0 = c.rng.integers(0, n, 2048)
    peak = np.repeat(amp, 64)
    if what == 'uneven':  # the average counts, not the largest pixel
        peak = peak * c.rng.exponential(1, 2048)
    if what == 'single-pixels':  # every pixel of the module counts
        amp[:] = 0
        peak = np.ones(2048)
        for m in MODULES:
            p = int(c.rng.choice([0, 63, c.rng.integers(64)]))
            peak[64 * m + p] = 64 * c.rng.uniform(29, 60)
            if c.rng.random() < 0.5:
                peak[64 * m + p] += 64 * 40
    wf = np.minimum(wf, 1)
    wf[np.arange(2048), t0] = peak
    if what == 'exact':  # exactly 30 is enough, whatever the pixels are
        wf = np.minimum(wf, 1).astype(np.float32)
        units = c.rng.permutation(4)
        for k, u in enumerate(units):
            p = 30 + np.tile([-8., 8.], 32) if k == 0 else \
                np.full(64, 31. + 3 * k)
            if k == 1 and c.rng.random() < 0.3:
                p[:] = 30 + np.tile([-4., 3.75], 32)
            m = MODULES[u]
            wf[np.arange(64 * m, 64 * m + 64), t0[:64]] = p
    avg = np.maximum(wf.astype(np.float64).max(1), -np.inf
                     ).reshape(32, 64).mean(1)[MODULES]
    s = np.sort(avg)
    if what == 'exact':
        c.event('exact_thresholds')
    elif np.abs(avg - 30).min() < 1e-3 or s[-1] - s[-2] < 1e-3:
        return
    want = -1 if (avg < 30).any() else int(np.argmax(avg))
    got = FlagFlashers(2048, n).process(wf)['flasher_unit']
    c.note(what=what, averages=avg)
    c.check(np.unique(got).tolist() == [want], 'value-flasher_unit',
            (avg, got, want))
    c.event('flashers')
    c.nontrivial(what, want)
