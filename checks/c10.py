"""C10: the same event for every kind of access to a waveform reader"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random sequences of index expressions (positive, negative, slices
with any step, lists), full, partial and nested iterations on one reader over
generated camera (R0, R1) and simulation files, with random event limits;
every waveform and attribute is compared with the generated event. Returned
arrays are overwritten between reads to expose shared buffers. Distinct by
reader, events, limit and operations."""
ASSUMPTIONS = ["stand-ins for target_io, target_calib and ctapipe"]
REQUIRE = ['long_runs', 'events_read', 'refusals', 'attributes']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 5


def setup():
    import CHECLabPy.core.io  # noqa


ATTRS = dict(first_cell_id='FCI', stale='STALE', missing_packets='MISSING',
             t_tack='TACK')


def check_attrs(c, wf, run, iev, i, what=''):
    import pandas as pd
    c.check(wf.iev == iev, 'attribute-iev', (what, wf.iev, iev))
    for a, k in ATTRS.items():
        c.check(getattr(wf, a) == run[k][i], 'attribute-' + a,
                (what, iev, getattr(wf, a), run[k][i]))
    want = int(run['CPU_S'][i]) * 10 ** 9 + int(run['CPU_NS'][i])
    c.check(pd.Timestamp(wf.t_cpu).value == want, 'attribute-t_cpu',
            lambda: (what, pd.Timestamp(wf.t_cpu).value, want))
    c.check(bool(wf.is_r1) == run['r1'], 'attribute-is_r1', what)
    c.event('attributes', 6)


def check_derived(c, wf, run, iev, i):
    """Attributes survive slicing and arithmetic, which act as on arrays"""
    raw = run['waveforms'][i]
    k = int(c.rng.integers(1, wf.shape[0]))
    mask = c.rng.random(wf.shape[0]) < 0.5
    for name, f in [
        ('slice', lambda a: a[k - 1:k + 3]), ('column', lambda a: a[:, :16]),
        ('row', lambda a: a[k]), ('mask', lambda a: a[mask]),
        ('list', lambda a: a[[0, k]]), ('minus', lambda a: a - 1.5),
        ('times', lambda a: 2 * a), ('int', lambda a: a + 1),
        ('array', lambda a: a - np.arange(a.shape[0])[:, None]),
        ('copy', lambda a: a.copy()), ('T', lambda a: a.T),
        ('astype', lambda a: a.astype(np.float64)),
        ('chain', lambda a: (a[1:] * 0.5)[:, 3:]),
    ]:
        got = f(wf)
        c.equal(np.asarray(got), f(raw), 'derived-values', name)
        check_attrs(c, got, run, iev, i, name)


def cpu_times(c, run):
    n = len(run['FCI'])
    if c.rng.random() < 0.5:
        run['CPU_S'] = c.rng.integers(0, 2 ** 32, n)
        run['CPU_NS'] = c.rng.choice([0, 1, 7, 999999999, 123456789], n)


@group(quick=40, thorough=1500)
def camera_files(c):
    from CHECLabPy.core.io import TIOReader, ReaderR0, ReaderR1
    from vlib import files
    r1 = bool(c.rng.random() < 0.6)
    n_total = 3 + int(c.rng.integers(1, 12))
    if c.rng.random() < 0.1:
        c.event('long_runs')
        n_total = int(c.rng.integers(33, 300))
    run = files.random_run(c.rng, n_total, camera='1.1.0', n_modules=1,
                           n_samples=int(c.rng.choice([32, 40])), r1=r1,
                           bad=0.3)
    cpu_times(c, run)
    path = c.path('f.tio')
    files.write_tio(path, run, compress=bool(c.rng.random() < 0.3))
    cls = TIOReader if c.rng.random() < 0.4 else (
        ReaderR1 if r1 else ReaderR0)
    max_events = int(c.rng.integers(1, n_total + 2)) \
        if c.rng.random() < 0.5 else None
    index = list(files.served(run))
    if max_events:
        index = index[:max_events]
    n = len(index)
    reader = cls(path, max_events)
    c.check(len(reader) == n, 'length', (len(reader), n))
    c.check(reader.n_events == n, 'n-events', (reader.n_events, n))
    ops = []

    def check(wf, k):
        i = index[k]
        c.check(wf.dtype == (np.float32 if r1 else np.uint16), 'dtype',
                wf.dtype)
        c.equal(np.asarray(wf), run['waveforms'][i], 'waveforms',
                'event {}'.format(k))
        check_attrs(c, wf, run, k, i)
        c.event('events_read')

    def spoil(wf):
        if c.rng.random() < 0.5:
            wf[:] = 7

    for i_op in range(10):
        whole = n > 32 and i_op == 0  # all of a long file at once
        op = 'slice' if whole else str(c.rng.choice([
            'int', 'negative', 'slice', 'list', 'iterate', 'nested',
            'derived', 'range', 'type', 'partial', 'kept']))
        ops.append(op)
        if op == 'int':
            k = int(c.rng.integers(n))
            wf = reader[k]
            check(wf, k)
            spoil(wf)
        elif op == 'negative':
            k = int(c.rng.integers(n))
            check(reader[k - n], k)
        elif op == 'slice':
            def end():
                return None if c.rng.random() < 0.3 else int(
                    c.rng.integers(-n - 2, n + 3))
            step = [None, 1, 2, -1, -2, 3][int(c.rng.integers(6))]
            s = slice(end(), end(), step)
            if whole:
                s = slice(None, None, step and step // abs(step))
            got = reader[s]
            want = index[s]
            if want:
                c.equal(np.asarray(got), run['waveforms'][want], 'slice', s)
                c.check(got.dtype == run['waveforms'].dtype, 'slice-dtype',
                        got.dtype)
            else:
                c.check(len(got) == 0, 'slice', s)
            c.event('events_read', len(want))
        elif op == 'list':
            sel = [int(k) for k in c.rng.integers(
                -n, n, int(c.rng.integers(0, 6) if c.rng.random() < 0.8
                           else c.rng.integers(6, 150)))]
            got = reader[sel]
            want = [index[k] for k in sel]
            if want:
                c.equal(np.asarray(got), run['waveforms'][want], 'list', sel)
                c.check(got.dtype == run['waveforms'].dtype, 'list-dtype',
                        got.dtype)
            else:
                c.check(len(got) == 0, 'list', sel)
            c.event('events_read', len(want))
        elif op == 'iterate':
            m = 0
            for wf in reader:
                if m >= n:
                    break
                check(wf, m)
                spoil(wf)
                m += 1
            c.check(m == n, 'iterate-number', (m, n))
        elif op == 'partial':
            for m, wf in enumerate(reader):
                check(wf, m)
                if m == n // 2:
                    break
        elif op == 'nested':
            for m, wf in enumerate(reader):
                k = int(c.rng.integers(n))
                other = reader[k]
                check(other, k)
                check(wf, m)
                other[:] = 3
                check(wf, m) if not np.shares_memory(wf, other) else \
                    c.fail('shared-buffer')
                if m >= 3:
                    break
            a, b = iter(reader), iter(reader)
            check(next(a), 0)
            check(next(b), 0)
            if n > 1:
                check(next(b), 1)
                check(next(a), 1)
        elif op == 'kept':
            # events read earlier stay what they were
            kept = [reader[k] for k in range(n)]
            for k in c.rng.permutation(n):
                check(kept[int(k)], int(k))
        elif op == 'derived':
            k = int(c.rng.integers(n))
            check_derived(c, reader[k], run, k, index[k])
        elif op == 'range':
            for k in (n, n + 3, -n - 1, -n - 5):
                c.raises(IndexError, lambda: reader[k], 'index-range', k)
                c.event('refusals')
            c.raises(IndexError, lambda: reader[[0, n]], 'index-range')
        else:
            for bad in (1.0, '0', None, (0, 1), {0}):
                c.raises(TypeError, lambda: reader[bad], 'index-type', bad)
                c.event('refusals')
    c.note(reader=cls.__name__, n=n, max_events=max_events, ops=ops)
    c.nontrivial(cls.__name__, n, max_events, '-'.join(sorted(set(ops))))


@group(quick=4, thorough=60)
def simulations(c):
    from CHECLabPy.core.io import SimtelReader
    from vlib import files, dl1
    n_ev = int(c.rng.integers(1, 6))
    sim = files.random_sim(c.rng, n_ev, n_samples=32)
    path = c.path('x.simtel.gz')
    files.write_simtel(path, sim)
    max_events = int(c.rng.integers(1, n_ev + 2)) \
        if c.rng.random() < 0.5 else None
    exp = dl1.ExpectedSim(sim, max_events)
    n = exp.n_read
    reader = SimtelReader(path, max_events)
    want = sim['waveforms'][:, exp.pick]
    c.check(len(reader) == n, 'length', (len(reader), n))

    def check(wf, k):
        c.equal(np.asarray(wf), want[k], 'waveforms', k)
        c.check(wf.iev == k, 'attribute-iev', (wf.iev, k))
        c.equal(wf.mc_true, sim['mc_true'][k][exp.pick], 'attribute-mc_true')
        c.event('events_read')
        c.event('attributes', 2)

    for m, wf in enumerate(reader):
        check(wf, m)
    for _ in range(5):
        k = int(c.rng.integers(n))
        check(reader[k], k)
        check(reader[k - n], k)
        s = slice(int(c.rng.integers(-n, n)), int(c.rng.integers(n + 1)),
                  int(c.rng.choice([1, -1, 2])))
        got = reader[s]
        ref = want[:n][s]
        c.check(len(got) == len(ref), 'slice', s)
        if len(ref):
            c.equal(np.asarray(got), ref, 'slice', s)
    sel = [int(k) for k in c.rng.integers(-n, n, 3)]
    c.equal(np.asarray(reader[sel]), want[:n][sel], 'list', sel)
    c.raises(IndexError, lambda: reader[n], 'index-range')
    c.raises(IndexError, lambda: reader[-n - 1], 'index-range')
    c.raises(TypeError, lambda: reader['0'], 'index-type')
    c.event('refusals', 3)
    c.note(n=n, max_events=max_events)
    c.nontrivial('sim', n, max_events)


@group(quick=12, thorough=60)
def mappings(c):
    """The pixels of the file: one module or the whole camera"""
    from CHECLabPy.core.io import TIOReader, ReaderR0, ReaderR1
    from vlib import camera, files
    version, layout, n_modules = [
        ('1.1.0', 'module', 1), ('9.2.0', 'quad', 4), ('9.2.0', 'module', 1),
        ('9.3.0', 'nine', 9), ('9.3.0', 'module', 1)][c.index % 5]
    r1 = bool(c.rng.random() < 0.5)
    n_total = 3 + int(c.rng.integers(1, 5))
    run = files.random_run(c.rng, n_total, camera=version,
                           n_modules=n_modules, n_samples=32, r1=r1)
    path = c.path('f.tio')
    files.write_tio(path, run)
    reader = c.rng.choice([TIOReader, ReaderR1 if r1 else ReaderR0])(path)
    df, meta = camera.layout_info(layout)
    m = reader.mapping
    c.check(reader.n_pixels == n_modules * 64, 'n-pixels', reader.n_pixels)
    c.check(reader.n_modules == n_modules, 'n-modules', reader.n_modules)
    if c.check(len(m) == len(df), 'mapping-pixels', (len(m), len(df))):
        for k in ('row', 'col', 'slot', 'superpixel'):
            if k in df and k in m:
                c.equal(m[k].values, df[k].values, 'mapping-' + k)
        for k in ('xpix', 'ypix'):
            c.close(m[k].values, df[k].values, 'mapping-' + k, 1e-6, 1e-9)
    c.check(bool(m.metadata['is_single_module']) == (n_modules == 1),
            'mapping-single', m.metadata['is_single_module'])
    c.check(m.metadata['n_modules'] == n_modules, 'mapping-modules')
    wf = reader[0]
    c.equal(np.asarray(wf), run['waveforms'][files.served(run)[0]],
            'waveforms')
    c.event('mappings')
    c.note(version=version, layout=layout)
    c.nontrivial(version, layout, r1)


@group(quick=6, thorough=60)
def modules(c):
    """Values per module and superpixel, none outside the camera"""
    from CHECLabPy.core.io import ReaderR0, ReaderR1
    from vlib import files
    camera, n_mod = [('1.1.0', 1), ('9.2.0', 4)][int(c.rng.integers(2))]
    r1 = bool(c.rng.random() < 0.7)
    run = files.random_run(c.rng, 3, camera=camera, n_modules=n_mod, r1=r1)
    path = c.path('m_r{}.tio'.format(int(r1)))
    files.write_tio(path, run)
    reader = (ReaderR1 if r1 else ReaderR0)(path)
    c.check(reader.n_modules == n_mod, 'n-modules')
    for _ in range(2):
        for tm in c.rng.permutation(n_mod):
            tm = int(tm)
            for f, k in ((reader.get_sn, 'SN'), (reader.get_sipm_temp, 'TSIPM'),
                         (reader.get_primary_temp, 'TPRIM')):
                c.equal(f(tm), run[k][tm], 'module-values', (k, tm))
                c.event('attributes')
            for sp in range(16):
                c.equal(reader.get_sp_dac(tm, sp), run['DAC'][tm, sp],
                        'superpixel-values', (tm, sp))
                c.equal(reader.get_sp_hvon(tm, sp), run['HVON'][tm, sp],
                        'superpixel-values', (tm, sp))
                c.event('attributes', 2)
        for f in (reader.get_sn, reader.get_sipm_temp,
                  reader.get_primary_temp):
            for tm in (n_mod, n_mod + 1, 99):
                c.raises(IndexError, lambda: f(tm), 'module-range', tm)
                c.event('refusals')
        for f in (reader.get_sp_dac, reader.get_sp_hvon):
            for a in ((n_mod, 0), (0, 16), (n_mod - 1, 99), (99, 99)):
                c.raises(IndexError, lambda: f(*a), 'superpixel-range', a)
                c.event('refusals')
    c.nontrivial(camera, r1)
