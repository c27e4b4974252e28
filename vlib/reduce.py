"""Events and reducer chains shared by the checks of the waveform reducers"""
import os

import numpy as np

from vlib import camera, files

FAKES = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'fakes')
PULSES = [os.path.join(FAKES, 'data', p)
          for p in ('pulse_a.dat', 'pulse_b.dat')]

# Default state of each column, from the documentation of the chain
DEFAULTS = dict(
    baseline_end_mean=True, baseline_end_rms=True, baseline_start_mean=True,
    baseline_start_rms=True, waveform_mean=True, waveform_rms=True,
    t_event=False, t_pulse=False, t_pulse_amp=False, t_rise=False,
    fwhm=False, saturation_sum=True, t_averagewf=True, charge_averagewf=True,
    t_cc=True, charge_cc=True, height_cc=True,
    t_cc_local=False, charge_cc_local=False, height_cc_local=False,
    t_cc_nn=False, charge_cc_nn=False, height_cc_nn=False,
    t_local=False, charge_local=False, t_nn=False, charge_nn=False,
    charge_nnls=False, nnls_tcharge=False, nnls_tmcharge=False,
    nnls_tccharge=False, nnls_norm=False, nnls_npulses=False,
    nnls_errata=False,
    t_sliding=False, charge_sliding=False, t_sliding_local=False,
    charge_sliding_local=False, t_sliding_nn=False, charge_sliding_nn=False,
    sp_argmax=False, sp_max=False,
)
NNLS = {k for k in DEFAULTS if 'nnls' in k}
OTHERS = {'waveform_max', 'flasher_unit'}  # no documented default
ALL = set(DEFAULTS) | OTHERS
# Columns whose definition concerns only the pixel itself
SINGLE = {'baseline_end_mean', 'baseline_end_rms', 'baseline_start_mean',
          'baseline_start_rms', 'waveform_mean', 'waveform_rms',
          'waveform_max', 't_cc_local', 'charge_cc_local', 'height_cc_local',
          't_local', 'charge_local', 't_sliding_local',
          'charge_sliding_local', 'charge_nnls', 'nnls_npulses'}
# ... the neighbouring pixels
NEIGHBOUR = {'t_cc_nn', 'charge_cc_nn', 'height_cc_nn', 't_nn', 'charge_nn',
             't_sliding_nn', 'charge_sliding_nn'}
# ... the superpixel
SUPER = {'sp_argmax', 'sp_max'}


KINDS = ['pulse', 'noise', 'edge', 'flat', 'saturated', 'sparse', 'large',
         'negative', 'tiny']


def event(rng, n_pixels, n_samples=128, dtype=np.float32, kind=None):
    """One event: pulses, noise only, flat, saturated, edge pulses, ..."""
    if kind is None:
        kind = rng.choice(KINDS, p=[.3, .1, .15, .05, .1, .1, .05, .1, .05])
    t = np.arange(n_samples)
    noise = rng.normal(0, 1, (n_pixels, n_samples))
    base = rng.normal(0, 2, (n_pixels, 1))
    amp = rng.exponential(30, (n_pixels, 1))
    if kind == 'edge':
        t0 = rng.choice([-2, 0, 1, 3, n_samples - 4, n_samples - 2,
                         n_samples - 1, n_samples + 1])
    else:
        t0 = rng.uniform(12, n_samples - 12)
    jitter = rng.normal(0, 1, (n_pixels, 1))
    wf = amp * files.pulse_shape(t, t0 + jitter)
    if kind == 'noise':
        wf = noise
    elif kind == 'flat':
        wf = np.full((n_pixels, n_samples), float(rng.choice([0, 5, -3])))
    elif kind == 'sparse':
        wf = wf * (rng.random((n_pixels, 1)) < 0.1) + noise * 0.3
    elif kind == 'large':
        wf = wf * 1000 + noise + base
    else:
        wf = wf + noise + base
    if kind == 'negative':
        wf = wf - rng.choice([5, 50, 1000])
    elif kind == 'tiny':
        wf = wf * 1e-3
    if kind == 'saturated':
        wf = np.minimum(wf, rng.uniform(2, 30))
    return np.ascontiguousarray(wf, dtype=dtype), str(kind)


def spread(rng, n_pixels, n_samples=128):
    """Pixels with unrelated pulses: positions anywhere, any amplitude"""
    t = np.arange(n_samples)
    t0 = rng.uniform(-3, n_samples + 3, (n_pixels, 1))
    wf = rng.exponential(50, (n_pixels, 1)) * files.pulse_shape(
        t, t0, rng.uniform(1.5, 4), rng.uniform(3, 9))
    wf += rng.normal(0, rng.choice([0, 0.3, 2]), wf.shape)
    return wf


def same(a, b, rtol=2e-5, scale=0.0):
    """Equal up to rounding (integers exactly)"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'iub' and b.dtype.kind in 'iub':
        return bool((a == b).all())
    return bool(np.isclose(a.astype(float), b.astype(float), rtol=rtol,
                           atol=rtol * scale + 1e-9, equal_nan=True).all())


def reducers():
    """Every reducer class of the package that defines columns"""
    from CHECLabPy.core import child_subclasses
    from CHECLabPy.core.reducer import WaveformReducer
    import CHECLabPy.core.chain  # noqa
    return [r for r in child_subclasses(WaveformReducer) if r.columns]


def layout(rng, all_columns=False, full=0.1):
    name = str(rng.choice(['quad', 'module', 'checs'],
                          p=[(1 - full) * .6, (1 - full) * .4, full]))
    return name, camera.mapping_of(name)
