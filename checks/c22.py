"""C22: shifting and averaging waveforms preserves the samples"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random waveforms of all types are shifted by every number of samples
from beyond one end to beyond the other and compared with an index-based
definition; alignment, file averages (in memory and through the real reader)
and dead pixels are compared with direct computations. Distinct by shape, type
and shift."""
ASSUMPTIONS = ["alignment is judged where the maximum of the average is unique"]
REQUIRE = ['shifts', 'shifted_out', 'restored', 'averages', 'dead_lists']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 8


def setup():
    import CHECLabPy.utils.waveform  # noqa


def moved(arr, num, fill):
    n = arr.shape[1]
    out = np.full(arr.shape, fill, arr.dtype)
    for s in range(n):
        if 0 <= s - num < n:
            out[:, s] = arr[:, s - num]
    return out


@group(quick=40, thorough=2000)
def shifting(c):
    from CHECLabPy.utils.waveform import shift_array
    from CHECLabPy.core.io.waveform import Waveform
    n_pix, n = int(c.rng.integers(1, 6)), int(c.rng.integers(1, 40))
    dtype = np.dtype(str(c.rng.choice(['float32', 'float64', 'uint16',
                                       'int64'])))
    arr = c.rng.integers(1, 4000, (n_pix, n)).astype(dtype)
    if dtype.kind == 'f':
        arr += c.rng.random(arr.shape).astype(dtype)
        arr[c.rng.random(arr.shape) < 0.02] = np.nan
    if c.rng.random() < 0.3:
        arr = np.asfortranarray(arr)
    keep = arr.copy()
    given = Waveform(arr, iev=3) if c.rng.random() < 0.3 else arr
    kw = {}
    fill = 0
    if c.rng.random() < 0.6:
        fill = kw['fill_value'] = int(c.rng.integers(0, 100))
        if dtype.kind == 'f' and c.rng.random() < 0.3:
            fill = kw['fill_value'] = np.nan
    c.note(shape=arr.shape, dtype=dtype, fill=fill)
    for num in range(-n - 3, n + 4):
        got = shift_array(given, num, **kw)
        c.event('shifts')
        c.event('shifted_out', abs(num) >= n)
        c.check(got.dtype == dtype, 'shift-type', got.dtype)
        if not c.equal(np.asarray(got), moved(keep, num, fill), 'shift', num):
            break
        back = np.asarray(shift_array(got, -num, **kw))
        if abs(num) < n:
            inside = slice(0, n - num) if num >= 0 else slice(-num, n)
            c.equal(back[:, inside], keep[:, inside], 'shift-back', num)
            c.event('restored')
    c.equal(arr, keep, 'shift-input')
    c.nontrivial(arr.shape, str(dtype), fill)


@group(quick=60, thorough=3000)
def aligning(c):
    from CHECLabPy.utils.waveform import shift_waveform
    from vlib import reduce
    n = int(c.rng.choice([40, 128]))
    wf, kind = reduce.event(c.rng, int(c.rng.integers(1, 20)), n)
    avg = wf.astype(float).mean(0)
    s = np.sort(avg)
    if s[-1] - s[-2] < 1e-4 * (np.abs(wf).max() + 1):
        return
    t = int(c.rng.choice([0, n - 1, c.rng.integers(n), -5, n + 5]))
    fill = float(c.rng.choice([0, -1000]))
    before = wf.tobytes()
    got = shift_waveform(wf, t, fill_value=fill)
    c.note(kind=kind, t=t)
    c.event('shifts')
    c.check(wf.tobytes() == before, 'align-input')
    c.equal(got, moved(wf, t - int(avg.argmax()), fill), 'align', t)
    if 0 <= t < n and fill < 0:
        c.check(got.astype(float).mean(0)[t] >= avg.max() - 1e-3
                * abs(avg.max()), 'align-maximum')
    if fill == 0:
        c.equal(shift_waveform(wf, t), got, 'align-default-fill')
    c.nontrivial(kind, t - int(avg.argmax()))


@group(quick=30, thorough=1000)
def averages(c):
    from CHECLabPy.utils.waveform import get_average_wf, \
        get_average_wf_per_pixel
    from vlib import files, ref
    from vlib.source import reader_or_source
    n_pix = 64 if c.rng.random() < 0.5 else int(c.rng.integers(2, 10))
    n, n_ev = 128, int(c.rng.choice([1, 2, 7, 20, 60]))
    if n_ev == 60:
        n_pix = 4
    x = np.arange(n)
    t0 = c.rng.integers(20, n - 10, (n_ev, 1, 1))
    wfs = c.rng.uniform(20, 60, (n_ev, n_pix, 1)) * files.pulse_shape(
        x, t0 + c.rng.normal(0, 0.3, (n_ev, n_pix, 1)), 1.5, 3)
    wfs += c.rng.normal(0, 0.1, wfs.shape)
    wfs += c.rng.normal(0, 5, (n_ev, 1, 1)) + c.rng.normal(0, 5, (n_pix, 1))
    wfs = wfs.astype(np.float32)
    what, source = reader_or_source(c, wfs)
    t = int(c.rng.integers(5, n))
    c.note(n_events=n_ev, n_pixels=n_pix, t=t, source=what)
    model = ref.RollingBaseline(list(wfs))
    total = np.zeros((n_pix, n))
    for w in wfs:
        base = model.update(w)
        sub = w.astype(float) - base[:, None]
        avg = sub.mean(0)
        s = np.sort(avg)
        if s[-1] - s[-2] < 1e-3:
            return
        total += moved(sub, t - int(avg.argmax()), 0)
    total /= n_ev
    got = get_average_wf_per_pixel(source, t)
    c.event('averages')
    c.close(got, total, 'average-per-pixel', 1e-4, 1e-3)
    got = get_average_wf(source, t)
    c.event('averages')
    c.close(got, total.mean(0), 'average', 1e-4, 1e-3)
    c.nontrivial(n_ev, n_pix, t, what)


@group(quick=40, thorough=1500)
def dead(c):
    from CHECLabPy.utils.waveform import obtain_dead_pixel_list_r1
    from vlib import files
    from vlib.source import reader_or_source
    n_pix = 64 if c.rng.random() < 0.3 else int(c.rng.integers(2, 30))
    n, n_ev = 128, int(c.rng.integers(1, 9))
    amp = c.rng.uniform(5, 100, n_pix)
    low = c.rng.random(n_pix) < 0.3
    amp[low] *= c.rng.uniform(0, 0.3, int(low.sum()))
    wfs = amp[:, None] * files.pulse_shape(
        np.arange(n), c.rng.uniform(20, 100, (n_ev, 1, 1)))
    if c.rng.random() < 0.5:  # later events differ
        wfs[n_ev // 2:] *= c.rng.uniform(0, 2, (n_pix, 1))
    wfs = (wfs + c.rng.normal(0, 0.2, wfs.shape)).astype(np.float32)
    if c.rng.random() < 0.3:  # a few below the baseline
        under = c.rng.random(n_pix) < 0.2
        wfs[:, under] -= (c.rng.uniform(5, 200) * files.pulse_shape(
            np.arange(n), c.rng.uniform(20, 100))).astype(np.float32)
    what, source = reader_or_source(c, wfs)
    kw = {}
    if c.rng.random() < 0.6:
        kw['threshold_percent'] = float(c.rng.uniform(0.02, 1.2))
    if c.rng.random() < 0.5:
        kw['max_events'] = int(c.rng.integers(1, 12))
    m = min(kw.get('max_events', 100), n_ev)
    peak = wfs[:m].astype(float).mean(0).max(1)
    limit = peak.mean() * kw.get('threshold_percent', 0.1)
    if np.abs(peak - limit).min() < 1e-4:
        return
    got = obtain_dead_pixel_list_r1(source, **kw)
    c.note(n_events=n_ev, n_pixels=n_pix, source=what, **kw)
    c.event('dead_lists')
    c.equal(np.asarray(got, dtype=int), np.flatnonzero(peak < limit), 'dead')
    c.nontrivial(n_ev, n_pix, m, len(got))


@group(quick=10, thorough=200)
def dead_border(c):
    """A peak of exactly the requested height is not below it"""
    from CHECLabPy.utils.waveform import obtain_dead_pixel_list_r1
    from vlib.source import reader_or_source
    n_pix, n_ev = 4 * int(c.rng.integers(1, 9)), int(c.rng.integers(1, 5))
    # whole numbers with a mean of 8: all sums and thresholds are exact
    peak = np.tile([2., 4., 8., 18.], n_pix // 4)
    peak = peak[c.rng.permutation(n_pix)]
    t = float(c.rng.choice([0.25, 0.5, 1., 0.125]))
    wfs = np.zeros((n_ev, n_pix, 128), dtype=np.float32)
    wfs[:, np.arange(n_pix), c.rng.integers(10, 100, n_pix)] = peak
    if c.rng.random() < 0.2:
        wfs[:], peak = 0, np.zeros(n_pix)
    what, source = reader_or_source(c, wfs)
    got = obtain_dead_pixel_list_r1(source, threshold_percent=t)
    c.event('dead_lists')
    c.equal(np.asarray(got, dtype=int),
            np.flatnonzero(peak < peak.mean() * t), 'dead-border')
    c.note(threshold=t, peak=peak, source=what)
    c.nontrivial(n_pix, n_ev, t, bool(peak.any()))
