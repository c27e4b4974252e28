"""C27: time calibration resamples each pixel by its own correction"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random, linear and step waveforms of both float types and any memory
layout are calibrated by the real (compiled) routine and calibrator with whole,
fractional, negative, huge and per-pixel mixed corrections; every sample is
compared with an independent interpolation. Metamorphic relations: linear
waveforms exactly, whole shifts exactly, pixel subsets. Distinct by shape, type
and corrections."""
ASSUMPTIONS = []
REQUIRE = ['samples', 'whole', 'extended', 'linear']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 6


def setup():
    import CHECLabPy.calib.time_calibrator  # noqa


def corrections(c, n_pix, n):
    kind = str(c.rng.choice(['small', 'whole', 'mixed', 'large']))
    if kind == 'small':
        cor = c.rng.normal(0, 2, n_pix)
    elif kind == 'whole':
        cor = c.rng.integers(-n - 2, n + 3, n_pix).astype(float)
    elif kind == 'large':
        cor = c.rng.uniform(-2 * n, 2 * n, n_pix)
    else:
        cor = c.rng.choice([0, 0.5, -0.5, 1, -1, 1e-7, 3.25, -n, n - 1], n_pix)
    return kind, cor


@group(quick=200, thorough=10000)
def interpolation(c):
    from CHECLabPy.calib.time_calibrator import apply_t_cor
    from vlib import ref, reduce
    n_pix, n = int(c.rng.integers(1, 40)), int(c.rng.choice(
        [2, 3, 10, 96, 128]))
    dtype = np.float32 if c.rng.random() < 0.6 else np.float64
    if n > 90 and c.rng.random() < 0.5:
        wf, _ = reduce.event(c.rng, n_pix, n, dtype)
    else:
        wf = c.rng.normal(0, 30, (n_pix, n)).astype(dtype)
    kind, cor = corrections(c, n_pix, n)
    layout = int(c.rng.integers(3))
    if layout == 1:
        wf = np.asfortranarray(wf)
    elif layout == 2:
        wf = np.repeat(wf, 2, axis=1)[:, ::2]
    before = wf.tobytes()
    cor_before = cor.tobytes()
    got = apply_t_cor(wf, cor)
    c.note(shape=wf.shape, dtype=dtype.__name__, kind=kind, layout=layout)
    c.check(wf.tobytes() == before and cor.tobytes() == cor_before,
            'input-changed')
    c.check(got.dtype == dtype and got.shape == wf.shape, 'type',
            (got.dtype, got.shape))
    want = ref.time_calibrate(wf, cor)
    rel = 2e-6 if dtype is np.float32 else 1e-12
    # extrapolation multiplies the step of the end segment
    scale = np.abs(wf).max() * (1 + np.abs(cor).max()) + 1e-9
    c.event('samples', wf.size)
    x = np.arange(n)[None] - cor[:, None]
    c.event('extended', int(((x < 0) | (x > n - 1)).sum()))
    c.close(got, want, 'interpolation', 1e-5, rel * scale, kind)
    # whole corrections are exact shifts where the sample exists
    whole = np.flatnonzero(cor == np.round(cor))
    for p in whole:
        src = np.arange(n) - int(cor[p])
        ok = (src >= 0) & (src < n)
        c.event('whole', int(ok.sum()))
        c.close(got[p, ok], wf[p, src[ok]], 'whole-shift', rel,
                1e-6 * np.abs(wf[p]).max(), (p, cor[p]))
    # pixels on their own
    p = int(c.rng.integers(n_pix))
    c.close(apply_t_cor(wf[p:p + 1], cor[p:p + 1])[0], got[p],
            'pixel-alone', 1e-6, 1e-6 * scale)
    c.nontrivial(wf.shape, dtype.__name__, kind, layout)


@group(quick=60, thorough=3000)
def linear(c):
    """Waveforms linear in time, at their time minus the correction"""
    from CHECLabPy.calib.time_calibrator import apply_t_cor
    n_pix, n = int(c.rng.integers(1, 30)), int(c.rng.choice([2, 16, 128]))
    a = c.rng.integers(-50, 50, (n_pix, 1)).astype(float)
    b = c.rng.integers(-8, 9, (n_pix, 1)).astype(float)
    kind, cor = corrections(c, n_pix, n)
    wf = a + b * np.arange(n)
    dtype = np.float32 if c.rng.random() < 0.5 else np.float64
    got = apply_t_cor(wf.astype(dtype), cor)
    want = a + b * (np.arange(n)[None] - cor[:, None])
    c.event('linear', wf.size)
    c.close(got, want, 'linear', 1e-5, 1e-3 if dtype is np.float32 else 1e-9,
            kind)
    c.nontrivial(n_pix, n, kind)


@group(quick=6, thorough=100)
def calibrator(c):
    """The calibrator with the shipped and with other corrections"""
    from CHECLabPy.calib import TimeCalibrator
    from CHECLabPy.core.io.waveform import Waveform
    from vlib import dl1, ref, reduce
    cal = TimeCalibrator()
    shipped = dl1.t_cor()
    c.close(cal.t_cor, shipped, 'shipped-corrections', 1e-12, 0)
    n_pix = int(c.rng.choice([64, 2048]))
    wf, kind = reduce.event(c.rng, n_pix)
    wf = Waveform(wf, iev=1) if c.rng.random() < 0.5 else wf
    scale = np.abs(wf).max() + 1
    c.event('samples', wf.size)
    c.close(cal(wf), ref.time_calibrate(np.asarray(wf), shipped),
            'calibrator', 1e-5, 2e-5 * scale)
    again = np.array(cal(wf))
    c.close(cal(wf), again, 'calibrator-repeat', 0, 0)
    cal.t_cor = c.rng.normal(0, 3, n_pix)
    c.close(cal(wf), ref.time_calibrate(np.asarray(wf), cal.t_cor),
            'calibrator', 1e-5, 1e-4 * scale)
    c.nontrivial(n_pix, kind)
