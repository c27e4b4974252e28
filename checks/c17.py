"""C17: cross-correlation charge is calibrated and uses the right peak"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random reference pulses (any length, rise, tail and peak position)
are written to files and given to the real reducers. Waveforms made of that
pulse scaled to a known charge at every kind of position must return the
charge, height and time; arbitrary waveforms are compared with a naive
correlation at the peak of the camera, pixel or neighbour average. Distinct by
reference pulse, camera and event kind."""
ASSUMPTIONS = ["""the reference pulse is smooth, positive and given from time
zero; stand-in for ctapipe's neighbour average"""]
REQUIRE = ['charges_recovered', 'values', 'times', 'edge_peaks']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.core.chain  # noqa


def reference(c):
    from vlib import reduce, ref
    if c.rng.random() < 0.3:
        path = reduce.PULSES[int(c.rng.integers(2))]
        return path, ref.Pulse(path)
    from vlib import files
    n = int(c.rng.integers(6, 90))
    peak = c.rng.uniform(0.1, 0.8) * n
    step = float(c.rng.choice([0.25, 0.5, 1]))
    t = np.arange(0, n + step, step)
    y = files.pulse_shape(t, peak, c.rng.uniform(1, 5), c.rng.uniform(2, 10))
    y *= 10 ** c.rng.uniform(-2, 3)
    # half a sample of margin: the number of whole ns is unambiguous
    t = np.append(t, t[-1] + 0.5)
    y = np.append(y, y[-1] * 0.99)
    path = c.path('pulse.dat')
    np.savetxt(path, np.column_stack([t * 1e-9, y]))
    return path, ref.Pulse(path)


def build(c, n_pix, n, path, mapping):
    from CHECLabPy.waveform_reducers import cross_correlation as m
    kw = dict(reference_pulse_path=path, mapping=mapping)
    return dict(
        cc=m.CrossCorrelation(n_pix, n, **kw),
        cc_local=m.CrossCorrelationLocal(n_pix, n, **kw),
        cc_nn=m.CrossCorrelationNeighbour(n_pix, n, **kw))


def layout(c):
    from vlib import camera
    name = str(c.rng.choice(['module', 'quad', 'checs'], p=[.5, .45, .05]))
    return name, camera.mapping_of(name)


@group(quick=60, thorough=2000)
def calibrated(c):
    """The pulse of charge q at sample s gives charge q, height, time s"""
    path, pulse = reference(c)
    name, mapping = layout(c)
    n_pix = len(mapping)
    n = int(c.rng.integers(pulse.n + 2, pulse.n + 150))
    reducers = build(c, n_pix, n, path, mapping)
    # the whole pulse inside the waveform
    lo, hi = pulse.peak, n - (pulse.n - pulse.peak)
    s = int(c.rng.choice([lo, hi, c.rng.integers(lo, hi + 1)]))
    q = c.rng.uniform(0.5, 200, n_pix)
    wf = np.zeros((n_pix, n))
    wf[:, s - pulse.peak:s - pulse.peak + pulse.n] = q[:, None] * pulse.unit
    wf = wf.astype(np.float32 if c.rng.random() < 0.5 else np.float64)
    c.note(pulse=(pulse.n, pulse.peak), n_samples=n, s=s, camera=name)
    if s in (lo, hi):
        c.event('edge_peaks')
    scale = q.max()
    for k, r in reducers.items():
        d = r.process(wf)
        c.event('charges_recovered', n_pix)
        c.close(d['charge_' + k], q, 'charge-' + k, 1e-4, 1e-4 * scale)
        c.close(d['height_' + k], q * pulse.unit.max(), 'height-' + k, 1e-4,
                1e-4 * scale * pulse.unit.max())
        c.close(d['t_' + k], np.full(n_pix, s), 'time-' + k, 0, 0.51)
        c.event('times', n_pix)
    # scaling the waveform scales the charge
    f = np.float32(c.rng.uniform(0.1, 10))
    for k, r in reducers.items():
        a = np.array(r.process(wf)['charge_' + k])
        b = np.array(r.process(wf * f)['charge_' + k])
        c.close(b, a * f, 'linear-' + k, 1e-4, 1e-4 * scale * f)
    c.nontrivial(pulse.n, pulse.peak, n, s, name)


@group(quick=24, thorough=800)
def between_samples(c):
    """A pulse between two samples: charge up to sampling accuracy"""
    from vlib import files
    width, tail = c.rng.uniform(2.5, 5), c.rng.uniform(4, 10)
    n_ref = 60
    t = np.arange(0, n_ref + 0.6, 0.25)
    peak_ref = 20.0
    y = files.pulse_shape(t, peak_ref, width, tail)
    path = c.path('pulse.dat')
    np.savetxt(path, np.column_stack([t * 1e-9, y]))
    from vlib import camera
    mapping = camera.mapping_of('module')
    reducers = build(c, 64, 128, path, mapping)
    s = c.rng.uniform(25, 85)
    q = c.rng.uniform(1, 100, 64)
    x = np.arange(128)
    shape = files.pulse_shape(x, s, width, tail)
    wf = (q[:, None] * shape / files.pulse_shape(
        np.arange(61), peak_ref, width, tail).sum()).astype(np.float32)
    c.note(s=s, width=width, tail=tail)
    for k, r in reducers.items():
        d = r.process(wf)
        c.event('charges_recovered', 64)
        c.close(d['charge_' + k], q, 'charge-between-' + k, 0.03, 1e-3)
        c.close(d['t_' + k], np.full(64, s), 'time-between-' + k, 0, 0.6)
    c.nontrivial(round(s, 2), round(width, 2))


@group(quick=50, thorough=2000)
def arbitrary(c):
    """Any waveform: correlation at the defining peak"""
    from vlib import reduce, ref, camera
    path, pulse = reference(c)
    name, mapping = layout(c)
    n_pix = len(mapping)
    n = int(c.rng.choice([64, 96, 128, 160, 300]))
    reducers = build(c, n_pix, n, path, mapping)
    if c.rng.random() < 0.5:
        wf, kind = reduce.event(c.rng, n_pix, n)
    else:
        wf = reduce.spread(c.rng, n_pix, n).astype(np.float32)
        kind = 'spread'
    if c.rng.random() < 0.5:  # any unit, e.g. V
        wf = (wf * 10 ** c.rng.uniform(-5, 3)).astype(wf.dtype)
    c.note(kind=kind, camera=name, n_samples=n, pulse=(pulse.n, pulse.peak))
    cc = pulse.correlate(wf)
    # float32 waveforms are correlated in single precision
    mag = np.abs(pulse.weights).sum() * np.abs(wf).max()
    eps = 1e-5 * mag + 1e-12
    nbr = camera.neighbours(mapping)
    where = dict(
        cc=np.tile(cc.mean(0), (n_pix, 1)), cc_local=cc,
        cc_nn=ref.neighbour_average(cc, nbr))
    rows = np.arange(n_pix)
    for k, r in reducers.items():
        d = {kk: np.asarray(v) for kk, v in r.process(wf).items()}
        q = d['charge_' + k]
        cand = where[k] >= where[k].max(1)[:, None] - 2 * eps
        miss = np.where(cand, np.abs(cc - q[:, None]), np.inf).min(1)
        c.event('values', n_pix)
        c.check((miss <= 4 * eps).all(), 'peak-charge-' + k,
                lambda: (kind, miss.max(), eps, np.argmax(miss)))
        c.close(d['height_' + k], q * pulse.unit.max(), 'height-' + k, 1e-4,
                1e-6 * mag)
        t = d['t_' + k]
        c.check(((t >= 0) & (t < n)).all(), 'time-outside-' + k,
                lambda: (t.min(), t.max()))
        c.event('times', n_pix)
        # unique peak sample: within a sample of it if it is a maximum there
        one = cand.sum(1) == 1
        i = where[k].argmax(1)
        c.event('edge_peaks', int(((i == 0) | (i == n - 1)).sum()))
        ii = np.clip(i, 1, n - 2)
        y0, y1, y2 = (cc[rows, ii + j] for j in (-1, 0, 1))
        genuine = one & (ii == i) & (y1 > y0 + 10 * eps) & (
            y1 > y2 + 10 * eps)
        c.check((np.abs(t - i)[genuine] <= 1).all(), 'time-off-peak-' + k,
                lambda: np.abs(t - i)[genuine].max())
        den = y0 - 2 * y1 + y2
        clear = genuine & (np.abs(den) > 200 * eps)
        with np.errstate(all='ignore'):
            want = i + 0.5 * (y0 - y2) / den
        c.close(t[clear], want[clear], 'time-' + k, 0, 0.05)
        edge = one & (ii != i)
        c.close(t[edge], i[edge].astype(float), 'time-edge-' + k, 0, 1e-9)
        c.nontrivial(k, kind, name, pulse.n, n)


@group(quick=4, thorough=40)
def refused(c):
    from CHECLabPy.waveform_reducers import cross_correlation as m
    from vlib import reduce
    for cls in (m.CrossCorrelation, m.CrossCorrelationLocal,
                m.CrossCorrelationNeighbour):
        c.raises(ValueError, lambda: cls(64, 128, mapping=None),
                 'no-reference-pulse')
    c.raises(ValueError, lambda: m.CrossCorrelationNeighbour(
        64, 128, reference_pulse_path=reduce.PULSES[0]), 'no-mapping')
    c.nontrivial('refused')
