"""C50: data handed over is kept as it was when handed over"""
import numpy as np
import pandas as pd

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Streams of data are handed to every class that collects data
(writer, appender, metadata, mapping, charge resolution and statistics,
rolling baseline, spectrum fitters, waveform reducers, camera images), once as
independent objects and once through buffers that the caller overwrites,
sorts, deletes from or refills after each call; the outcomes must be equal.
Likewise for data handed out: what a waveform or DL1 reader returned is
overwritten and read again, and earlier results are compared after later
calls. Distinct by class, buffer and kind of change."""
ASSUMPTIONS = ["""objects given to constructors as configuration (coefficients,
mappings, readers) may be shared"""]
REQUIRE = ['frames_reused', 'metadata_reused', 'accumulators', 'baselines',
           'fits', 'images', 'reduced', 'events_overwritten', 'tables_overwritten',
           'events_kept']
WORKERS = dict(quick=6, thorough=8)
QUICK_FACTOR = 2


def setup():
    import CHECLabPy.core.chain  # noqa
    import CHECLabPy.core.io  # noqa
    from vlib import synth
    synth.fitters()


def spoil(rng, df):
    """Change a frame in place as its owner may"""
    what = str(rng.choice(['overwrite', 'zero', 'column', 'drop', 'rename',
                           'index', 'sort']))
    if what == 'overwrite':
        for k in df.columns:
            df[k] = df[k].values[::-1].copy()
        df.iloc[:, :] = df.iloc[::-1].values
    elif what == 'zero':
        df.iloc[:] = 0
    elif what == 'column':
        df['added'] = 1
    elif what == 'drop':
        df.drop(columns=df.columns[0], inplace=True)
    elif what == 'rename':
        df.columns = ['z{}'.format(i) for i in range(len(df.columns))]
    elif what == 'index':
        df.index = df.index[::-1] + 5
    else:
        df.sort_values(df.columns[0], ascending=False, inplace=True)
    return what


@group(quick=80, thorough=3000)
def writing(c):
    """Frames that are refilled or changed after they were appended"""
    from CHECLabPy.core.io import HDF5Appender, HDF5Reader, HDF5Writer
    from vlib import h5
    rng = c.rng
    path = c.path('a.h5')
    n, rows = int(rng.integers(2, 9)), int(rng.integers(1, 6))
    keys = ['data', 'other'][:int(rng.integers(1, 3))]
    kind = str(rng.choice(['refilled', 'spoiled', 'array']))
    cut = int(rng.integers(1, n)) if rng.random() < 0.4 else n
    # one buffer of the caller for all appends of a table
    base = {k: np.zeros((rows, 3)) for k in keys}
    frame = {k: pd.DataFrame(base[k], columns=list('xyz'), copy=False)
             for k in keys}
    want = {k: [] for k in keys}
    how = set()

    def session(w, n):
        for _ in range(n):
            k = str(rng.choice(keys))
            v = rng.normal(0, 9, (rows, 3))
            want[k].append(v.copy())
            if kind == 'spoiled':
                df = pd.DataFrame(v, columns=list('xyz'))
                w.append(df, key=k)
                how.add(spoil(rng, df))
            elif kind == 'array':
                base[k][:] = v
                w.append(frame[k] if np.shares_memory(
                    frame[k].values, base[k]) else
                    pd.DataFrame(base[k], columns=list('xyz')), key=k)
                base[k][:] = np.nan
            else:
                for i, name in enumerate('xyz'):
                    frame[k][name] = v[:, i]
                w.append(frame[k], key=k)
            c.event('frames_reused')
    scale = rng.choice([1, 1, 0.5e9 / (rows * 24 * rng.integers(1, 4))])
    with h5.FlushSchedule() as sched:
        sched.scale = scale
        with HDF5Writer(path) as w:
            session(w, cut)
        if cut < n:
            with HDF5Appender(path) as w:
                session(w, n - cut)
    c.note(kind=kind, changes=how, scale=scale)
    with HDF5Reader(path) as r:
        for k in keys:
            if want[k]:
                got = r.read(k, force=True)
                if c.check(list(got.columns) == list('xyz'), 'columns-' + kind,
                           list(got.columns)):
                    c.equal(got.values, np.concatenate(want[k]),
                            'rows-' + kind, (k, how))
    c.nontrivial(kind, scale == 1, cut < n, sorted(how))


@group(quick=40, thorough=1500)
def metadata(c):
    """Values changed after they were added; frames after they were written"""
    from CHECLabPy.core.io import HDF5Reader, HDF5Writer
    from vlib import camera
    rng = c.rng
    path = c.path('a.h5')
    values = dict(
        files=['a', 'b'], initial=dict(spe=1.5, eped=0),
        arr=rng.normal(0, 1, 5), nested=[dict(x=[1, 2])], s={1, 2})
    some = {k: values[k] for k in rng.permutation(sorted(values))[
        :int(rng.integers(1, 6))]}
    import copy
    want = copy.deepcopy(some)
    df = pd.DataFrame(dict(x=rng.normal(0, 1, 4), y=np.arange(4)))
    df_want = df.copy()
    m = camera.mapping_of('quad')
    m_want, meta_want = m.copy(), dict(m.metadata)
    with HDF5Writer(path) as w:
        w.append(pd.DataFrame(dict(x=[1.])), key='data')
        w.add_metadata(key='data', name='info2', **some)
        w.write(whole=df)
        w.add_mapping(m)
        for k, v in some.items():
            if k == 'files':
                v.append('c')
            elif k == 'initial':
                v.clear()
            elif k == 'arr':
                v[:] = 0
            elif k == 'nested':
                v[0]['x'].append(3)
            else:
                v.add(9)
        spoil(rng, df)
        m['xpix'] = 0.
        m.metadata['n_pixels'] = -1
    c.event('metadata_reused')
    with HDF5Reader(path) as r:
        got = r.get_metadata('data', 'info2')
        for k, v in want.items():
            c.check(k in got and np.array_equal(
                np.asarray(got[k], dtype=object),
                np.asarray(v, dtype=object)), 'metadata-' + k,
                (got.get(k), v))
        c.check(r.read('whole').equals(df_want), 'written-table')
        got = r.get_mapping()
        c.equal(got['xpix'].values, m_want['xpix'].values, 'mapping')
        c.check(dict(got.metadata) == meta_want, 'mapping-metadata')
    c.nontrivial(sorted(some))


@group(quick=60, thorough=2000)
def accumulators(c):
    """Charge resolution and statistics, rolling baseline"""
    from CHECLabPy.utils.resolutions import ChargeResolution, \
        ChargeStatistics
    from CHECLabPy.utils.waveform import BaselineSubtractor
    from vlib.source import Source
    rng = c.rng
    n, n_pix = int(rng.integers(2, 8)), int(rng.integers(2, 20))
    as_series = bool(rng.random() < 0.3)
    for cls in (ChargeResolution, ChargeStatistics):
        fresh, reused = [cls(bool(rng.random() < 2)) if
                         cls is ChargeResolution else cls()
                         for _ in range(2)]
        buf = [np.zeros(n_pix, int), np.zeros(n_pix), np.zeros(n_pix)]
        for _ in range(n):
            v = [rng.permutation(n_pix),
                 rng.integers(1, 6, n_pix).astype(float),
                 rng.normal(20, 9, n_pix)]
            fresh.add(*[x.copy() for x in v])
            for b, x in zip(buf, v):
                b[:] = x
            args = [pd.Series(b, copy=False) for b in buf] if as_series \
                else buf
            reused.add(*args)
            for b in buf:
                b[:] = 1
            c.event('accumulators')
        for a, b in zip(fresh.finish(), reused.finish()):
            c.check(list(a.columns) == list(b.columns)
                    and np.allclose(a.values.astype(float),
                                    b.values.astype(float), equal_nan=True),
                    'reused-' + cls.__name__)
    events = rng.normal(0, 5, (n + 3, n_pix, 40))
    kw = dict(n_base=int(rng.integers(1, 5)))
    a = BaselineSubtractor(Source(events), **kw)
    b = BaselineSubtractor(Source(events), **kw)
    buf = np.zeros((n_pix, 40))
    before = []
    for ev in events:
        wa = np.array(a.subtract(ev.copy()))
        buf[:] = ev
        wb = b.subtract(buf)
        c.close(wb, wa, 'reused-baseline', 1e-9, 1e-9)
        before.append((wb, wa, b.baseline, np.array(b.baseline)))
        buf[:] = 1e6
        c.event('baselines')
    for wb, wa, base, was in before:  # still what they were
        c.close(wb, wa, 'baseline-result-changed-later', 1e-9, 1e-9)
        c.close(base, was, 'baseline-changed-later', 1e-9, 1e-9)
    c.nontrivial(n, n_pix, as_series)


@group(quick=40, thorough=1500)
def reducers(c):
    """Waveform reducers: the event of the call, whatever follows"""
    from CHECLabPy.core.chain import WaveformReducerChain
    from CHECLabPy.waveform_reducers.average_wf import AverageWF
    from CHECLabPy.waveform_reducers.common import Common
    from CHECLabPy.waveform_reducers.cross_correlation import CrossCorrelation
    from CHECLabPy.waveform_reducers.saturation import Saturation
    from CHECLabPy.waveform_reducers.superpixel import SPAmplitude
    from vlib import reduce
    rng = c.rng
    n_pix, n = 64, int(rng.choice([96, 128]))
    dtype = [np.float32, np.float64][int(rng.integers(2))]
    layout = str(rng.choice(['C', 'F', 'strided']))
    buf = dict(C=lambda: np.zeros((n_pix, n), dtype),
               F=lambda: np.zeros((n_pix, n), dtype, order='F'),
               strided=lambda: np.zeros((n_pix, 2 * n), dtype)[:, ::2]
               )[layout]()
    classes = [Common, AverageWF, Saturation, SPAmplitude]
    if rng.random() < 0.4:
        classes.append(CrossCorrelation)
    kw = dict(reference_pulse_path=reduce.PULSES[int(rng.integers(2))])
    kept = []
    for cls in classes:
        reused, fresh = cls(n_pix, n, **kw), cls(n_pix, n, **kw)
        for _ in range(int(rng.integers(2, 5))):
            wf, _kind = reduce.event(rng, n_pix, n, dtype)
            buf[:] = wf
            got = reused.process(buf)
            want = {k: np.array(v) for k, v in
                    fresh.process(np.copy(buf, order='K')).items()}
            tol = 2e-5 * (np.abs(wf).max() + 1)
            buf[:] = 1e5  # the caller goes on to the next event
            for k in reused.columns:
                v = got[k]
                c.close(np.asarray(v, float), np.asarray(want[k], float),
                        'column-' + k, 1e-5, tol)
                kept.append((k, v, want[k], tol))
            # the columns of the object itself are still about that event
            for k in reused.columns:
                v = getattr(reused, k)
                c.close(np.asarray(v, float) * np.ones(n_pix),
                        np.asarray(want[k], float) * np.ones(n_pix),
                        'kept-' + k, 1e-5, tol)
            c.event('reduced')
    for k, v, want, tol in kept:
        c.close(np.asarray(v, float), np.asarray(want, float),
                'column-changed-later-' + k, 1e-5, tol)
    c.nontrivial(layout, np.dtype(dtype).name, len(classes))


@group(quick=40, thorough=1000)
def fits(c):
    """What a fitter reports does not follow the caller's charges"""
    from vlib import synth
    rng = c.rng
    name, cls = sorted(synth.fitters().items())[0]
    n_ill = int(rng.integers(1, 4))
    fitter, fresh = cls(n_ill), cls(n_ill)
    charges = [rng.normal(rng.uniform(5, 40), 10, 400) for _ in range(n_ill)]
    buf = [q.copy() for q in charges]
    fitter.apply(*buf)
    for b in buf:
        b[:] = 7
    fresh.apply(*[q.copy() for q in charges])
    x, y, e = fitter.charge_histogram
    x2, y2, e2 = fresh.charge_histogram
    c.event('fits')
    c.close(x, x2, 'fit-histogram')
    c.close(e, e2, 'fit-histogram')
    for i in range(n_ill):
        c.close(y[i], y2[i], 'fit-histogram')
    for k, v in dict(fresh.fit_result_values).items():
        c.close(dict(fitter.fit_result_values)[k], v, 'fit-values', 1e-9,
                1e-9)
    # what was taken from a fit stays although another pixel is fitted
    taken = (x, [q for q in y], e, dict(fitter.fit_result_values))
    copy = (x.copy(), [np.array(q) for q in y], e.copy(), dict(taken[3]))
    fitter.apply(*[rng.normal(30, 4, 300) for _ in range(n_ill)])
    c.equal(taken[0], copy[0], 'fit-result-changed-later')
    c.equal(taken[2], copy[2], 'fit-result-changed-later')
    for a, b in zip(taken[1], copy[1]):
        c.equal(a, b, 'fit-result-changed-later')
    c.check(taken[3] == copy[3], 'fit-result-changed-later')
    c.nontrivial(n_ill)


@group(quick=30, thorough=600)
def images(c):
    """Camera images: the values of the call, in both kinds of image"""
    from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
    from vlib import camera
    rng = c.rng
    m = camera.mapping_of(str(rng.choice(['quad', 'module'])))
    n = len(m)
    for cls in (CameraImage, CameraImageImshow):
        ci = cls.from_mapping(m)
        buf = rng.normal(0, 5, n)
        want = buf.copy()
        ci.image = buf
        art = ci.pixels if cls is CameraImage else ci.camera
        shown = np.ma.filled(np.ma.asarray(art.get_array(), dtype=float),
                             np.nan).copy()
        buf[:] = 99
        ci.fig.canvas.draw()
        now = np.ma.filled(np.ma.asarray(art.get_array(), dtype=float),
                           np.nan)
        c.event('images')
        c.equal(now, shown, 'image-' + cls.__name__)
        c.check(set(np.round(shown[np.isfinite(shown)], 9))
                >= set(np.round(want, 9)), 'image-values')
    c.nontrivial(n)


@group(quick=24, thorough=600)
def reading(c):
    """What readers returned belongs to the caller"""
    from CHECLabPy.core.io import DL1Reader, ReaderR1, SimtelReader
    from vlib import dl1, files
    rng = c.rng
    if rng.random() < 0.6:
        run = files.random_run(rng, 3 + int(rng.integers(2, 7)),
                               camera='1.1.0', n_modules=1, bad=0)
        path = c.path('Run1_r1.tio')
        files.write_tio(path, run)
        kind, reader = 'tio', ReaderR1(path)
    else:
        path = c.path('gamma.simtel.gz')
        files.write_simtel(path, files.random_sim(
            rng, int(rng.integers(2, 5)), n_samples=32))
        kind, reader = 'simtel', SimtelReader(path)
    first = [np.array(reader[i]) for i in range(len(reader))]
    kept = []
    for i, wf in enumerate(reader):
        kept.append(wf)
        if rng.random() < 0.5:
            np.asarray(wf)[:] = -1
            first_now = -np.ones_like(first[i])
            c.event('events_overwritten')
        else:
            first_now = first[i]
        c.equal(np.asarray(wf), first_now, 'event-' + kind)
        kept[-1] = (wf, first_now)
    for wf, v in kept:
        c.event('events_kept')
        c.equal(np.asarray(wf), v, 'event-changed-later-' + kind)
    for i in rng.permutation(len(reader)):
        c.equal(np.asarray(reader[int(i)]), first[i],
                'event-overwritten-' + kind)
    if kind == 'tio':
        m, xpix = reader.mapping, reader.mapping['xpix'].values.copy()
        c.equal(m['xpix'].values, xpix, 'mapping')
    # DL1
    if kind != 'tio':
        c.nontrivial(kind, len(first))
        return
    out = c.path('Run1_dl1.h5')
    dl1.extract(path, out)
    with DL1Reader(out) as r:
        whole = r.load_entire_table()
        copy = whole.copy()
        whole.iloc[:, -1] = 0
        whole.drop(columns=whole.columns[0], inplace=True)
        c.check(r.load_entire_table().equals(copy), 'table-overwritten')
        ievs = np.unique(copy['iev'].values)
        for iev in rng.permutation(ievs):
            ev = r[int(iev)]
            want = copy[copy['iev'] == iev]
            c.check(ev.equals(want), 'event-table-overwritten', iev)
            ev.iloc[:, :3] = 0
            ev['new'] = 1
            c.check(r[int(iev)].equals(want), 'event-table-overwritten', iev)
            c.event('tables_overwritten')
        mapping = r.mapping
        keep = mapping['xpix'].values.copy()
        mapping['xpix'] = 0.
        mapping.metadata['camera'] = 'changed'
        c.equal(r.mapping['xpix'].values, keep, 'mapping-overwritten')
    c.nontrivial(kind, len(first))
