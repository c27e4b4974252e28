"""C21: the subtracted baseline is the average over the most recent events"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Sources of fewer, exactly and many more events than the configured
history (in memory and through the real reader) drive the real subtractor, with
drifting and jumping baselines, in file order, with events skipped, repeated and
continued beyond the history several times. A monitor recomputes the baseline
after every event from the full list of events seen and hashes every input.
Distinct by lengths and configuration."""
ASSUMPTIONS = []
REQUIRE = ['events', 'beyond_history', 'short_sources', 'inputs_hashed']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 5


def setup():
    import CHECLabPy.utils.waveform  # noqa


@group(quick=90, thorough=4000)
def histories(c):
    from CHECLabPy.utils.waveform import BaselineSubtractor
    from vlib import ref
    from vlib.source import Source, reader_or_source
    kw = {}
    if c.rng.random() < 0.75:
        kw['n_base'] = int(c.rng.integers(1, 12))
    if c.rng.random() < 0.5:
        kw['n_base_samples'] = int(c.rng.integers(1, 32))
    n_base = kw.get('n_base', 50)
    n_smp = kw.get('n_base_samples', 16)
    n_ev = int(c.rng.choice([1, max(n_base - 1, 1), n_base, n_base + 1,
                             2 * n_base, int(c.rng.integers(1, 30))]))
    n_pix, n = (64, 128) if n_base < 20 and c.rng.random() < 0.4 else (
        int(c.rng.integers(1, 9)), 40)
    level = np.cumsum(c.rng.normal(0, 3, (n_ev, n_pix, 1)), axis=0)
    jump = c.rng.random((n_ev, 1, 1)) < 0.1
    level = level + np.cumsum(jump * c.rng.normal(0, 100, (n_ev, 1, 1)), 0)
    wfs = (level + c.rng.normal(0, 1, (n_ev, n_pix, n))).astype(np.float32)
    what, source = reader_or_source(c, wfs)
    c.note(n_events=n_ev, source=what, pixels=n_pix, **kw)
    if n_ev < n_base:
        c.event('short_sources')
    sub = BaselineSubtractor(source, **kw)
    model = ref.RollingBaseline(list(wfs), n_base, n_smp)
    c.close(sub.baseline, np.mean([w[:, :n_smp] for w in
                                   wfs[:n_base].astype(float)], axis=(0, 2)),
            'initial-baseline', 1e-5, 1e-3)
    order = [i for i in range(n_ev) if c.rng.random() > 0.15]
    more = int(c.rng.choice([0, n_base, 3 * n_base]))
    more = min(more, 120)
    order += [int(i) for i in c.rng.integers(0, n_ev, more)]
    scale = np.abs(wfs).max()
    for step, i in enumerate(order):
        wf = source[int(i)]
        before = wf.tobytes()
        out = sub.subtract(wf)
        want = model.update(wfs[i])
        c.event('events')
        c.event('beyond_history', step >= n_base)
        ok = c.close(sub.baseline, want, 'baseline', 1e-5, 2e-5 * scale,
                     (step, i, n_base))
        c.check(wf.tobytes() == before, 'input-changed')
        c.event('inputs_hashed')
        ok &= c.close(out, wfs[i].astype(float) - want[:, None], 'subtracted',
                      1e-5, 4e-5 * scale, step)
        if not ok:
            return
        if c.rng.random() < 0.3:
            # what happens to the waveforms afterwards has no influence
            wf[:] = 1e6
            np.asarray(out)[:] = -1e6
    c.nontrivial(n_base, n_smp, n_ev, len(order), what)


@group(quick=20, thorough=600)
def whole_numbers(c):
    """Uncalibrated samples: averages are not whole numbers, differences may
    be negative"""
    from CHECLabPy.utils.waveform import BaselineSubtractor
    from vlib import ref
    from vlib.source import Source
    dtype = [np.uint16, np.int16, np.int32, np.uint8][int(c.rng.integers(4))]
    n_ev, n_pix = int(c.rng.integers(2, 12)), int(c.rng.integers(1, 9))
    wfs = c.rng.integers(10, 250, (n_ev, n_pix, 1)) + c.rng.integers(
        -9, 6, (n_ev, n_pix, 40))
    wfs = wfs.astype(dtype)
    n_base = int(c.rng.integers(1, 12))
    source = Source(wfs)
    sub = BaselineSubtractor(source, n_base=n_base)
    model = ref.RollingBaseline([w.astype(float) for w in wfs], n_base)
    for i in list(range(n_ev)) + [int(x) for x in c.rng.integers(0, n_ev, 9)]:
        wf = source[i]
        before = wf.tobytes()
        out = sub.subtract(wf)
        want = model.update(wfs[i].astype(float))
        c.event('events')
        c.event('whole_numbers')
        c.check(wf.tobytes() == before, 'input-changed')
        if not (c.close(sub.baseline, want, 'baseline', 1e-5, 1e-3)
                and c.close(out, wfs[i].astype(float) - want[:, None],
                            'subtracted', 1e-5, 1e-3, (i, dtype.__name__))):
            return
    c.note(n_events=n_ev, n_base=n_base, dtype=dtype.__name__)
    c.nontrivial(n_base, n_ev, dtype.__name__)


@group(quick=6, thorough=60)
def long_runs(c):
    """Many times the history, and more events than fit in small counters"""
    from CHECLabPy.utils.waveform import BaselineSubtractor
    from vlib.source import Source
    n_ev, n_pix = int(c.rng.choice([300, 2500, 5000])), 2
    n_base = int(c.rng.choice([1, 3, 7, 50, 64]))
    if c.index == 0 or (c.thorough and c.index % 10 == 0):
        n_ev = 66000
    level = c.rng.integers(-1000, 1000, (n_ev, n_pix, 1))
    wfs = np.repeat(level, 20, axis=2).astype(np.float64)
    sub = BaselineSubtractor(Source(wfs[:n_base]), n_base=n_base)
    total = np.cumsum(np.concatenate(
        [wfs[:n_base, :, 0], wfs[:, :, 0]]), axis=0)
    total = np.concatenate([np.zeros((1, n_pix)), total])
    for i in range(n_ev):
        out = sub.subtract(wfs[i])
        want = (total[n_base + i + 1] - total[i + 1]) / n_base
        if not (np.abs(sub.baseline - want) < 1e-6).all() or not (
                np.abs(out[:, 0] - (wfs[i, :, 0] - want)) < 1e-6).all():
            c.fail('long-run', 'event {}: {} instead of {}'.format(
                i, sub.baseline, want))
            return
    c.event('events', n_ev)
    c.note(n_events=n_ev, n_base=n_base)
    c.nontrivial(n_ev, n_base)


@group(quick=16, thorough=400)
def independent(c):
    """Two subtractors on one source do not influence each other"""
    from CHECLabPy.utils.waveform import BaselineSubtractor
    from vlib import ref
    from vlib.source import Source
    n_ev = int(c.rng.integers(2, 12))
    wfs = c.rng.normal(0, 1, (n_ev, 5, 32)) + \
        c.rng.normal(0, 30, (n_ev, 5, 1))
    source = Source(wfs)
    n_base = [int(x) for x in c.rng.integers(1, 10, 2)]
    subs = [BaselineSubtractor(source, n_base=k) for k in n_base]
    models = [ref.RollingBaseline(list(wfs), k) for k in n_base]
    for _ in range(30):
        k, i = int(c.rng.integers(2)), int(c.rng.integers(n_ev))
        subs[k].subtract(source[i])
        models[k].update(wfs[i])
        c.event('events')
        for s, m in zip(subs, models):
            want = np.mean(m.hist, axis=(0, 2))
            if not c.close(s.baseline, want, 'baseline-mixed', 1e-6, 1e-6):
                return
    c.nontrivial(n_ev, n_base)
