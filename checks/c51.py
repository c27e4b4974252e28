"""C51: objects do not influence each other"""
import os
import pickle
import shutil

import numpy as np
import pandas as pd

from vlib.engine import Inconclusive, group

LEVEL = 'exploration'
RULE = """Scenarios drive one object each (writer, appender, reader, reducer
chain, subtractor, calibrator, masks, converter, matcher, accumulator, fitter,
mapping, image, plot) through random steps and record what it returns and
holds after every step.  Each scenario runs alone in its own process; then two
to four of one kind, with other sizes and data or with the same construction
and other steps, run in one process, their steps interleaved in a random order
or one after the other, while owners also change what they were given.  The
records must be the same.  Distinct by kinds, sizes and order of steps."""
ASSUMPTIONS = ['stand-ins for target_io, target_calib and ctapipe',
               """matplotlib's global style is set by every plotter: sizes and
fonts are not compared"""]
REQUIRE = ['alone', 'together', 'switches', 'twins', 'same_paths', 'storage',
           'waveforms', 'reduction', 'calibration', 'statistics', 'fits',
           'mappings', 'displays']
WORKERS = dict(quick=8, thorough=8)
CASE_LIMIT = 600


def setup():
    import CHECLabPy.calib  # noqa
    import CHECLabPy.calib.time_calibrator  # noqa
    import CHECLabPy.core.chain  # noqa
    import CHECLabPy.core.factory  # noqa
    import CHECLabPy.core.io  # noqa
    import CHECLabPy.plotting.camera  # noqa
    import CHECLabPy.plotting.resolutions  # noqa
    import CHECLabPy.plotting.waveform  # noqa
    import CHECLabPy.scripts.extract_spe  # noqa
    import CHECLabPy.utils.resolutions  # noqa
    from vlib import synth
    rng = np.random.default_rng(0)  # numba's typed containers, compiled once
    synth.fitters()['MomentFitter'](2).apply(rng.normal(5, 2, 50),
                                             rng.normal(5, 2, 50))


def snap(o):
    """A copy of an observation"""
    if isinstance(o, pd.DataFrame):
        return dict(columns=[str(k) for k in o.columns],
                    index=np.array(o.index),
                    values=[np.array(o.iloc[:, i])
                            for i in range(o.shape[1])])
    if isinstance(o, (pd.Series, pd.Index)):
        return np.array(o)
    if isinstance(o, np.ma.MaskedArray):
        return [np.array(o.filled(0)), np.array(np.ma.getmaskarray(o))]
    if isinstance(o, np.ndarray):
        return np.array(o)
    if isinstance(o, dict):
        return {str(k): snap(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [snap(x) for x in o]
    if isinstance(o, (int, float, str, bool, bytes, np.generic)) or o is None:
        return o
    return repr(type(o))


def differ(a, b, where=''):
    """The first difference of two observations, up to rounding"""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return '{}: keys {} / {}'.format(where, list(b), list(a))
        for k in a:
            d = differ(a[k], b[k], '{}.{}'.format(where, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '{}: {} / {} entries'.format(where, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '{}[{}]'.format(where, i))
            if d:
                return d
        return None
    x, y = np.asarray(a), np.asarray(b)
    if x.shape != y.shape or x.dtype != y.dtype:
        return '{}: {} {} / {} {}'.format(where, y.shape, y.dtype, x.shape,
                                          x.dtype)
    if x.dtype.kind in 'fc':
        tol = 1e-4 if x.dtype.itemsize < 8 else 1e-8
        fin = x[np.isfinite(x)]
        same = np.allclose(x, y, rtol=tol, equal_nan=True, atol=tol * (
            np.abs(fin).max() if fin.size else 0))
    elif x.dtype.kind == 'O':
        same = all(repr(p) == repr(q) for p, q in zip(x.ravel(), y.ravel()))
    else:
        same = np.array_equal(x, y)
    if same:
        return None
    return '{}: {} instead of {}'.format(where, repr(b)[:150], repr(a)[:150])


# ---- scenarios: generators of observations --------------------------------
# fam (the same for all scenarios of a case) decides what is made, rng how it
# is made, ops what is done with it

def frame(ops, n, columns='xyz'):
    return pd.DataFrame({k: ops.normal(0, 9, n) for k in columns})


def writer(fam, rng, ops, d, append=False):
    from CHECLabPy.core.io import HDF5Appender, HDF5Reader, HDF5Writer
    path = os.path.join(d, 'a.h5')
    rows = int(rng.integers(1, 7))
    keys = ['data', 'other'][:int(rng.integers(1, 3))]
    if append:
        with HDF5Writer(path) as w:
            for k in keys:
                w.append(frame(ops, rows), key=k)
                w.add_metadata(key=k, run=int(ops.integers(100)))
    yield 'made'
    w = (HDF5Appender if append else HDF5Writer)(path)
    yield 'opened'
    for i in range(int(ops.integers(2, 8))):
        what = int(ops.integers(5))
        k = str(ops.choice(keys))
        if what < 3:
            w.append(frame(ops, rows), key=k)
        elif what == 3:
            w.add_metadata(key=k, **{'m{}'.format(i): float(ops.normal())})
        else:
            w.write(**{'whole{}'.format(i): frame(ops, 3, 'ab')})
        yield what
    if ops.random() < 0.5:
        for k in keys:
            w.append(frame(ops, rows), key=k)
        from vlib import camera
        w.add_mapping(camera.mapping_of(str(rng.choice(['module', 'quad']))))
        yield 'mapping'
    w.finish()
    yield 'closed'
    r = HDF5Reader(path)
    yield sorted(r.dataframe_keys)
    for k in r.dataframe_keys:
        yield r.read(k, force=True), r.get_n_rows(k)
        meta = dict(r.get_metadata(k)) if 'metadata' in \
            r.metadata_keys[k] else {}
        yield sorted((a, b) for a, b in meta.items()
                     if a not in ('created', 'n_bytes'))
    r.store.close()


def appender(fam, rng, ops, d):
    return writer(fam, rng, ops, d, append=True)


def table_reader(fam, rng, ops, d):
    from CHECLabPy.core.io import HDF5Reader, HDF5Writer
    path = os.path.join(d, 'a.h5')
    rows, n = int(rng.integers(2, 7)), int(rng.integers(2, 9))
    with HDF5Writer(path) as w:
        for i in range(n):
            w.append(frame(ops, rows), key='data')
        w.add_metadata(key='data', n=n, v=float(ops.normal()))
    r = HDF5Reader(path)
    yield r.get_metadata('data')['n'], sorted(r.dataframe_keys)
    loops = [r.iterate_over_chunks('data', int(ops.integers(1, 2 * rows)))]
    for _ in range(int(ops.integers(3, 10))):
        what = int(ops.integers(5))
        if what < 2:
            yield next(loops[0], None)
        elif what == 2:
            yield [r.read('data', force=True), r.get_n_rows('data')]
        elif what == 3:
            yield [x for x in r.get_column_names('data')]
        else:
            yield float(r.get_metadata('data')['v'])
    r.store.close()


def dl1_reader(fam, rng, ops, d):
    from CHECLabPy.core.io import DL1Reader, HDF5Writer
    from vlib import camera
    path = os.path.join(d, 'Run1_dl1.h5')
    name = str(rng.choice(['module', 'quad']))
    n_pix = len(camera.mapping_of(name))
    n = int(rng.integers(2, 6))
    ievs = np.sort(ops.permutation(20)[:n])
    df = pd.DataFrame(dict(
        iev=np.repeat(ievs, n_pix), pixel=np.tile(np.arange(n_pix), n),
        charge=ops.normal(5, 3, n * n_pix)))
    with HDF5Writer(path) as w:
        w.append(df, key='data')
        w.add_mapping(camera.mapping_of(name))
        w.add_metadata(key='data', n_events=n, n_pixels=n_pix, is_mc=False,
                       n_modules=n_pix // 64, n_samples=int(ops.integers(99)))
        w.add_metadata(key='data', name='config', charge=bool(n % 2))
    r = DL1Reader(path)
    loop = r.iterate_over_events() if ops.random() < 0.5 else \
        r.iterate_over_selected_events(list(ops.choice(ievs, 3)))
    for _ in range(int(ops.integers(4, 12))):
        what = int(ops.integers(9))
        if what == 0:
            df = r[int(ops.choice(ievs))]
            yield df
            df.iloc[:, 2] = -1  # the owner of the result changes it
        elif what == 1:
            yield next(loop, None)
        elif what == 2:
            m = r.mapping
            yield [m, m.metadata['n_pixels']]
            m['xpix'] = 0.
            m.metadata['n_pixels'] = -1
        elif what == 3:
            yield [r.n_events, r.n_pixels, r.n_rows, dict(r.config),
                   r.metadata['n_samples']]
        elif what == 4:
            yield r.select_column('charge')
        elif what == 5:
            yield r.load_entire_table(force=True)
        elif what == 6:
            yield [r.event_lookup, list(r.columns)]
        elif what == 7:
            yield list(r.select_columns(['pixel', 'charge']))
        else:
            yield r.select_event_index(int(ops.integers(n)))
    r.store.close()


def describe(wf):
    return [np.array(wf), wf.iev, repr(wf.t_cpu), bool(wf.is_r1),
            {k: getattr(wf, k, None) for k in (
                'first_cell_id', 't_tack', 'stale', 'missing_packets')},
            {k: snap(v) for k, v in getattr(wf, 'mc', {}).items()}
            if isinstance(getattr(wf, 'mc', None), dict) else None]


def events(fam, rng, ops, d, reader):
    loop = iter(reader)
    yield [reader.n_events, reader.n_pixels, reader.n_samples,
           reader.camera_version, len(reader)]
    for _ in range(int(ops.integers(3, 9))):
        what = int(ops.integers(6))
        if what < 2:
            wf = reader[int(ops.integers(len(reader)))]
            yield describe(wf)
            wf[:] = 7
        elif what == 2:
            wf = next(loop, None)
            yield None if wf is None else describe(wf)
        elif what == 3:
            m = reader.mapping
            yield m
            m['xpix'] = 1.
        elif what == 4:
            yield reader.reference_pulse_path.rsplit('/')[-1]
        else:
            yield [np.array(w).sum() for w in reader]


def tio_reader(fam, rng, ops, d):
    from CHECLabPy.core.io import ReaderR0, ReaderR1
    from vlib import files
    r1 = bool(fam.random() < 0.5)
    n_modules = int(rng.choice([1, 1, 4]))
    n = int(rng.integers(2, 6))
    run = files.random_run(
        ops, 3 + n, n_modules=n_modules, r1=r1, bad=0.2,
        camera='9.2.0' if n_modules == 4 else str(
            rng.choice(['1.0.1', '1.1.0'])),
        n_samples=int(rng.choice([32, 96, 128])))
    path = os.path.join(d, 'Run1_r{}.tio'.format(int(r1)))
    files.write_tio(path, run)
    n_max = None if rng.random() < 0.6 else int(rng.integers(1, n + 1))
    reader = (ReaderR1 if r1 else ReaderR0)(path, max_events=n_max)
    yield [reader.get_sn(t) for t in range(n_modules)]
    yield from events(fam, rng, ops, d, reader)
    yield [reader.get_sipm_temp(t) for t in range(n_modules)]


def sim_reader(fam, rng, ops, d):
    from CHECLabPy.core.io import SimtelReader
    from vlib import files
    path = os.path.join(d, 'gamma.simtel.gz')
    files.write_simtel(path, files.random_sim(
        ops, int(rng.integers(1, 4)), n_samples=int(rng.choice([32, 64]))))
    reader = SimtelReader(path)
    yield from events(fam, rng, ops, d, reader)
    yield snap(getattr(reader, 'mcheader', None))


def layout(rng):
    """Mostly four modules, in any arrangement"""
    from vlib import camera
    n = int(rng.choice([1, 4, 4, 4, 6]))
    shape = {1: [(1, 1)], 4: [(2, 2), (1, 4), (4, 1)], 6: [(2, 3), (3, 2)]}[n]
    rows, cols = shape[int(rng.integers(len(shape)))]
    slots = [(r, k) for r in range(rows) for k in range(cols)]
    return camera.mapping_of('any', [slots[i] for i in rng.permutation(n)])


def pulse(rng, d):
    """A shipped reference pulse, or one of the user's under the same name"""
    from vlib import files, reduce
    shipped = reduce.PULSES[int(rng.integers(2))]
    if rng.random() < 0.5:
        return shipped
    own = os.path.join(d, os.path.basename(shipped))
    t = np.arange(0, 80)
    np.savetxt(own, np.column_stack([t * 1e-9, files.pulse_shape(
        t, rng.uniform(15, 30), rng.uniform(2, 5), rng.uniform(4, 9))]))
    return own


def window(rng):
    if rng.random() < 0.4:
        return {}
    return dict(window_size=int(rng.integers(3, 12)),
                window_shift=int(rng.integers(0, 5)),
                window_start=int(rng.integers(0, 20)),
                window_end=int(rng.integers(60, 96)))


def chain(fam, rng, ops, d):
    from CHECLabPy.core.chain import WaveformReducerChain
    from vlib import reduce
    mapping = layout(rng)
    n_pix, n = len(mapping), int(rng.choice([96, 128]))
    off = reduce.NNLS | {'flasher_unit'}
    chosen = {k: bool(k not in off and rng.random() < 0.7)
              for k in reduce.ALL}
    ch = WaveformReducerChain(
        n_pix, n, mapping=mapping, reference_pulse_path=pulse(rng, d),
        **chosen, **window(rng))
    yield sorted(ch.config.items(), key=str) if isinstance(
        getattr(ch, 'config', None), dict) else None
    for _ in range(int(ops.integers(2, 6))):
        wf, _kind = reduce.event(ops, n_pix, n)
        res = ch.process(wf)
        yield {k: res[k] for k in sorted(res)}
        for v in res.values():
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = 0


def reducer(fam, rng, ops, d):
    from vlib import reduce
    classes = sorted(reduce.reducers(), key=lambda k: k.__name__)
    classes = [k for k in classes if not set(k.columns) & (
        reduce.NNLS | {'flasher_unit'})]
    cls = classes[int(fam.integers(len(classes)))]
    mapping = layout(rng)
    n_pix, n = len(mapping), int(rng.choice([96, 128]))
    w = window(rng)
    r = cls(n_pix, n, mapping=mapping, reference_pulse_path=pulse(rng, d),
            **w)
    yield cls.__name__
    for _ in range(int(ops.integers(2, 6))):
        wf, _kind = reduce.event(ops, n_pix, n)
        res = r.process(wf)
        yield {k: res[k] for k in sorted(res)}
        yield {k: getattr(r, k) for k in sorted(r.columns)}


def subtractor(fam, rng, ops, d):
    from CHECLabPy.utils.waveform import BaselineSubtractor
    from vlib.source import Source
    n_pix, n = int(rng.integers(2, 30)), int(rng.integers(20, 60))
    total = int(rng.integers(2, 12))
    evs = ops.normal(0, 9, (total, n_pix, n))
    b = BaselineSubtractor(Source(evs), n_base=int(rng.integers(1, 9)),
                           n_base_samples=int(rng.integers(1, 16)))
    yield b.baseline
    for ev in evs:
        yield [np.array(b.subtract(ev)), b.baseline]


def averages(fam, rng, ops, d):
    from CHECLabPy.utils import waveform as u
    from vlib.source import Source
    n_pix, n = int(rng.integers(2, 20)), int(rng.integers(30, 60))
    s = Source(ops.normal(0, 9, (int(rng.integers(1, 9)), n_pix, n)))
    for _ in range(int(ops.integers(1, 4))):
        what, t = int(ops.integers(3)), int(ops.integers(n))
        if what == 0:
            yield u.get_average_wf(s, t)
        elif what == 1:
            yield u.get_average_wf_per_pixel(s, t)
        else:
            yield u.obtain_dead_pixel_list_r1(
                s, float(ops.uniform(0, 1)), int(ops.integers(1, 9)))


def time_calibrator(fam, rng, ops, d):
    from CHECLabPy.calib import TimeCalibrator
    cal = TimeCalibrator()
    n_pix = 64 * int(rng.integers(1, 4))
    yield np.array(cal.t_cor[:5])
    for _ in range(int(ops.integers(2, 6))):
        if ops.random() < 0.3:
            cal.t_cor = ops.normal(0, 2, 2048)
        elif ops.random() < 0.3:
            cal.t_cor[:] = 0.5
        wf = ops.normal(0, 9, (n_pix, 64)).astype(np.float32)
        yield [np.array(cal(wf)), cal.t_cor]


def amplitude_calibrator(fam, rng, ops, d):
    from CHECLabPy.calib import AmplitudeCalibrator
    n = int(rng.integers(1, 80))
    cal = AmplitudeCalibrator(rng.uniform(0.2, 3, n), rng.normal(0, 9, n),
                              float(rng.uniform(0.5, 2)))
    for _ in range(int(ops.integers(2, 7))):
        p = ops.integers(0, n, int(ops.integers(1, 40)))
        yield cal(ops.normal(0, 99, p.size), p)


def profile(fam, rng, ops, d):
    from CHECLabPy.calib import IlluminationProfile
    n = int(rng.integers(1, 300))
    path = os.path.join(d, 'profile.dat')
    pd.DataFrame(dict(pixel=np.arange(n), correction=rng.uniform(
        0.3, 2, n))).to_csv(path, sep='\t', index=False)
    p = IlluminationProfile(path)
    for _ in range(int(ops.integers(2, 7))):
        v = ops.normal(0, 99, n)
        yield [p.fold(v), p.unfold(v)]


def waveform_calibrator(fam, rng, ops, d):
    from CHECLabPy.calib import WaveformCalibrator
    from CHECLabPy.core.io import ReaderR0
    from vlib import files
    n = int(rng.integers(1, 4))
    n_modules = int(rng.choice([1, 4]))
    run = files.random_run(ops, 3 + n, n_modules=n_modules, r1=False,
                           n_samples=int(rng.choice([32, 64])), bad=0,
                           camera='9.2.0' if n_modules == 4 else '1.1.0')
    path = os.path.join(d, 'Run1_r0.tio')
    files.write_tio(path, run)
    reader = ReaderR0(path)
    cal = WaveformCalibrator.from_tio_reader(
        '/ped{}.tcal'.format(int(rng.integers(3))), reader)
    for i in ops.integers(0, n, int(ops.integers(2, 6))):
        wf = reader[int(i)]
        res = cal(wf, int(ops.integers(0, 16384)))
        yield [np.array(res), bool(res.is_r1), bool(wf.is_r1), np.array(wf),
               cal.n_pixels, cal.n_samples]


def masks(fam, rng, ops, d):
    from CHECLabPy.calib.pixel_masks import PixelMasks
    path = os.path.join(d, 'm.dat')

    def write(path, r):
        pd.DataFrame(dict(
            pixel=np.arange(2048), dead=r.random(2048) < r.random(),
            low=r.random(2048) < r.random(),
            bad_hv=np.repeat(r.random(512) < r.random(), 4))).to_csv(
                path, sep='\t', index=False)
    write(path, rng)
    m = PixelMasks(path if rng.random() < 0.7 else None)

    def now():
        return [np.array(m.dead), np.array(m.low), np.array(m.bad_hv),
                np.array(m.all_mask)]
    yield now()
    for i in range(int(ops.integers(2, 7))):
        if ops.random() < 0.6:
            k = str(ops.choice(['dead', 'low', 'bad_hv']))
            a = getattr(m, k)
            a[ops.integers(0, a.size, 5)] ^= True
        elif ops.random() < 0.5:
            more = os.path.join(d, 'n{}.dat'.format(i))
            write(more, ops)
            m._load_file(more, merge=bool(ops.random() < 0.5))
        k = ops.integers(0, 512, 6)
        yield [now(), np.array(m.convert_superpixels_to_pixels(k))]
    out = os.path.join(d, 'out.dat')
    m._save_to_file(out)
    yield open(out).read()


def data_sheet(fam, rng, ops, d):
    from CHECLabPy.calib.sipm_data_sheet import SiPMDataSheetConverter
    conv = SiPMDataSheetConverter()
    for _ in range(int(ops.integers(3, 9))):
        if ops.random() < 0.15:  # the owner replaces a characteristic
            conv.df['gain'] = conv.df['gain'] * 2
        k = str(ops.choice(['vover', 'opct', 'pde', 'gain']))
        x = conv.df[k].dropna().values
        yield conv(**{k: float(ops.uniform(x.min(), x.max()))})


def matcher(fam, rng, ops, d):
    from CHECLabPy.calib import AmplitudeMatcher
    from checks.c29 import Calibrator, SCALE
    from vlib import files
    aim = float(rng.uniform(80, 200))
    kw = {}
    if rng.random() < 0.5:
        kw['starting_dacs'] = rng.integers(10, 250, 512)
    if rng.random() < 0.5:
        kw['bad_hv'] = rng.random(512) < 0.2
    m = AmplitudeMatcher(Calibrator(2048, 32), aim, **kw)
    path = os.path.join(d, 'Run1_r0.tio')
    run = files.random_run(ops, 4, camera='1.1.0', n_modules=32,
                           n_samples=32, r1=False, bad=0, noise=0)
    yield [np.array(m.current_dac), np.array(m.sp_mask)]
    for _ in range(int(ops.integers(2, 6))):
        run['waveforms'][:] = 3
        run['waveforms'][:, :, 9] = np.rint(
            np.repeat(ops.uniform(40, 260, 512), 4) * SCALE)
        files.write_tio(path, run)
        dac, pix, done = m.process(path)
        yield [np.array(dac), np.array(pix), bool(done),
               np.array(m.stage), int(m.global_stage), m.iteration]


def resolution(fam, rng, ops, d):
    from CHECLabPy.utils import resolutions as mod
    name = str(fam.choice(['ChargeResolution', 'ChargeStatistics',
                           'IntensityResolution', 'IntensityStatistics']))
    if name.endswith('Resolution'):
        obj = getattr(mod, name)(bool(rng.random() < 0.5))
    else:
        obj = getattr(mod, name)()
    if rng.random() < 0.4:
        obj._max_bytes = float(rng.choice([0, 3000]))
    for i in range(int(ops.integers(2, 8))):
        n = int(ops.integers(1, 40))
        obj.add(ops.integers(0, 6, n), ops.integers(1, 5, n).astype(float),
                ops.normal(20, 9, n))
        yield i
        if ops.random() < 0.3:
            pix, cam = obj.finish()
            yield [pix, cam]
            pix.iloc[:, :] = 0
    yield list(obj.finish())


def fitter(fam, rng, ops, d):
    from CHECLabPy.core.factory import SpectrumFitterFactory
    from vlib import synth
    which = str(fam.choice(['moment', 'moment', 'SiPMGentileFitter',
                            'MAPMFitter']))
    n_ill = int(rng.integers(1, 4))
    f = synth.fitters()['MomentFitter'](n_ill) if which == 'moment' \
        else SpectrumFitterFactory.produce(which, n_ill)

    def now():
        return [f.n_bins, list(f.range), [
            [p.name, p.initial, list(p.limits), p.fixed, p.multi]
            for p in f.parameters], list(f.parameters.parameter_names),
            f.parameters.minuit_kwargs, f.parameters.lookup]
    yield now()
    for i in range(int(ops.integers(2, 7))):
        what = int(ops.integers(5))
        pars = list(f.parameters)
        p = pars[int(ops.integers(len(pars)))]
        if what == 0:
            f.n_bins = int(ops.integers(10, 60))
            f.range = (-5, float(ops.uniform(15, 40)))
        elif what == 1:
            a, b = p.limits
            path = os.path.join(d, 'c{}.yml'.format(i))
            with open(path, 'w') as out:
                out.write('initial:\n  {}: {}\n'.format(
                    p.name, float(a + (b - a) * ops.uniform(0.2, 0.8))))
                out.write('n_bins: {}\n'.format(int(ops.integers(9, 40))))
            f.load_config(path)
        elif what == 2:
            p.fixed = not p.fixed
            f.parameters._prepare_parameters()
        elif what == 3:
            path = os.path.join(d, 's{}.yml'.format(i))
            f.save_config(path)
            yield open(path).read()
        elif which == 'moment':
            f.apply(*[ops.normal(ops.uniform(4, 9), 2, 200)
                      for _ in range(n_ill)])
            yield [dict(f.fit_result_values), dict(f.fit_result_errors)]
        if f.fit_result_values is not None:
            x, y, e = f.charge_histogram
            yield [x, list(y), e, dict(f.fit_result_values)]
        yield now()


def applier(fam, rng, ops, d):
    """All pixels of a camera with one fitter each"""
    import gc
    from CHECLabPy.scripts.extract_spe import PixelFitApplier
    from vlib import synth
    n_ill = int(rng.integers(1, 3))
    n_pix = int(rng.integers(1, 5))
    a = PixelFitApplier(synth.fitters()['MomentFitter'](n_ill))
    a.process(*[ops.normal(ops.uniform(4, 9, n_pix), 2, (99, n_pix))
                for _ in range(n_ill)])
    for i in range(3):
        yield i
    for k in ('pixel_values', 'pixel_errors', 'pixel_arrays'):
        table = dict(getattr(a, k))
        yield [table[p] for p in sorted(table)]
    del a
    gc.collect()  # ends the process that holds the tables


def mappings(fam, rng, ops, d):
    from CHECLabPy.utils import mapping as u
    from vlib import camera
    if fam.random() < 0.7:
        m = layout(rng) if rng.random() < 0.6 else camera.mapping_of(
            'any', camera.random_slots(rng, 3))
    else:
        m = u.get_clp_mapping_from_version(str(rng.choice(
            ['1.0.1', '1.1.0'])), bool(rng.random() < 0.5))
    yield m
    for _ in range(int(ops.integers(2, 7))):
        what = int(ops.integers(5))
        if what == 0:
            s = u.get_superpixel_mapping(m)
            yield [s, dict(s.metadata)]
            s['xpix'] = 0.
        elif what == 1:
            t = u.get_tm_mapping(m)
            yield [t, dict(t.metadata)]
            t.metadata['size'] = 0
        elif what == 2:
            g = u.get_ctapipe_camera_geometry(m)
            yield [np.array(g.pix_x), np.array(g.neighbor_matrix)]
        elif what == 3:
            yield list(u.get_row_column(m['xpix'].values, m['ypix'].values))
        else:
            yield [m, dict(m.metadata)]


def image(fam, rng, ops, d, imshow=False):
    from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
    m = layout(rng)
    ci = (CameraImageImshow if imshow else CameraImage).from_mapping(m)

    def now():
        art = ci.camera if imshow else ci.pixels
        ci.fig.canvas.draw()
        res = [art.get_array(), list(art.get_clim()), len(ci.ax.texts),
               len(ci.ax.lines), len(ci.ax.patches), ci.ax.get_title(),
               len(ci.fig.axes), list(ci.ax.get_xlim()),
               [t.get_text() for t in ci.ax.texts][:40]]
        if not imshow:
            res += [art.get_facecolors(), art.get_linewidths()]
        if ci.colorbar is not None:
            res += [ci.colorbar.vmin, ci.colorbar.vmax]
        return res
    yield now()
    for _ in range(int(ops.integers(2, 7))):
        what = int(ops.integers(8))
        if what < 3:
            ci.image = ops.normal(0, 5, len(m))
        elif what == 3:
            a = float(ops.normal())
            ci.set_limits_minmax(a, a + 2)
        elif what == 4 and ci.colorbar is None:
            ci.add_colorbar('label {}'.format(int(ops.integers(9))))
        elif what == 5 and not imshow:
            ci.highlight_pixels(ops.integers(0, len(m), 4))
        elif what == 6 and not imshow:
            ci.add_text_to_pixel(int(ops.integers(len(m))),
                                 float(ops.normal()))
        elif what == 7:
            ci.ax.set_title('t{}'.format(int(ops.integers(9))))
        yield now()
    if ops.random() < 0.4:
        ci.close()


def imshow(fam, rng, ops, d):
    return image(fam, rng, ops, d, True)


def lines_of(ax):
    return [[np.array(ln.get_xdata(), float), np.array(ln.get_ydata(), float)]
            for ln in ax.lines]


def waveform_plot(fam, rng, ops, d):
    from CHECLabPy.plotting.waveform import CameraTMWaveformPlotter, \
        WaveformPlotter
    if fam.random() < 0.6:
        p = WaveformPlotter(title='t{}'.format(int(rng.integers(9))),
                            units='mV')
        for i in range(int(ops.integers(2, 6))):
            n = int(ops.integers(3, 50))
            p.add(None, ops.normal(0, 5, n), label='w{}'.format(i))
            yield lines_of(p.ax)
        p.finish()
        yield [p.ax.get_title(), p.ax.get_xlabel(), p.ax.get_ylabel(),
               lines_of(p.ax), [k.get_label() for k in p.ax.lines]]
        if ops.random() < 0.4:
            out = os.path.join(d, 'p.png')
            p.save(out)
            yield os.path.getsize(out) > 500
        return
    m = layout(rng)
    p = CameraTMWaveformPlotter(m, 'title {}'.format(int(rng.integers(9))))
    for _ in range(int(ops.integers(1, 3))):
        p.plot_waveforms(ops.normal(0, 9, (len(m), 20)),
                         thresh_fraction=float(ops.uniform(0.1, 1)))
        yield {k: lines_of(ax) for k, ax in sorted(p.ax_dict.items())}


def resolution_plot(fam, rng, ops, d):
    from CHECLabPy.plotting import resolutions as mod
    name = str(fam.choice(['ChargeResolutionPlotter',
                           'ChargeResolutionWRRPlotter',
                           'ChargeMeanPlotter']))
    mean = name == 'ChargeMeanPlotter'
    n = int(ops.integers(5, 60))
    tab = {}
    for k in ('pixel', 'camera'):
        x = ops.uniform(0.2, 400, n)
        df = pd.DataFrame({'pixel': ops.integers(0, 3, n),
                           'amplitude' if mean else 'true': x,
                           'mean' if mean else 'charge_resolution':
                           ops.uniform(0.1, 2, n)})
        if mean:
            df['std'] = ops.uniform(0.1, 1, n)
        tab[('charge_statistics_' if mean else 'charge_resolution_') + k] = df
    p = getattr(mod, name)()
    p.set_store(tab)

    def now():
        return [lines_of(p.ax),
                [np.concatenate(k.get_segments()) for k in p.ax.collections
                 if hasattr(k, 'get_segments') and len(k.get_segments())],
                p.ax.get_xscale(), p.ax.get_xlabel()]
    yield now()
    for _ in range(int(ops.integers(1, 5))):
        if ops.random() < 0.5:
            p.plot_camera('camera')
        else:
            p.plot_pixel(int(ops.integers(3)), 'pixel')
        yield now()
    if not mean and ops.random() < 0.5:
        p.plot_requirement(np.geomspace(0.2, 500, 30))
        p.plot_goal(np.geomspace(0.2, 500, 30))
        yield now()
    p.finish()
    yield now()


# ---- running scenarios ------------------------------------------------------

class Scenario:
    def __init__(self, kind, family, seed, ops, path):
        self.kind, self.path, self.family = kind, path, family
        self.seed, self.ops = seed, ops

    def start(self):
        shutil.rmtree(self.path, ignore_errors=True)
        os.makedirs(self.path)
        self.got = []
        self.live = self.kind(np.random.default_rng(self.family),
                              np.random.default_rng(self.seed),
                              np.random.default_rng(self.ops), self.path)
        return self

    def step(self):
        try:
            self.got.append(snap(next(self.live)))
        except StopIteration:
            self.live = None
        except Exception as e:
            self.got.append('raised {}: {}'.format(type(e).__name__,
                                                   str(e)[:200]))
            self.live = None
        return self.live is not None


def in_child(func):
    """func() in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            data = pickle.dumps(func())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise Inconclusive('scenario process ended with {}'.format(status))
    return pickle.loads(data)


def alone(s):
    def func():
        s.start()
        while s.step():
            pass
        return s.got
    return in_child(func)


def together(scenarios, order, seed):
    def func():
        rng = np.random.default_rng(seed)
        switches, last = 0, None
        if order == 'interleaved':
            live = [s.start() for s in scenarios]
            while live:
                s = live[int(rng.integers(len(live)))]
                switches += s is not last
                last = s
                if not s.step():
                    live.remove(s)
        else:
            for s in scenarios:
                s.start()
                while s.step():
                    pass
                switches += 1
        return [s.got for s in scenarios], switches
    return in_child(func)


def compare(c, kinds, event):
    rng = c.rng
    n = int(rng.integers(2, 5))
    kind = kinds[int(rng.integers(len(kinds)))]
    mixed = rng.random() < 0.15
    seed, family = (int(x) for x in rng.integers(2 ** 31, size=2))
    twins = bool(rng.random() < 0.4)
    order = str(rng.choice(['interleaved', 'interleaved', 'in turn']))
    # one after the other: possibly with files under the same paths
    same = order == 'in turn' and rng.random() < 0.6
    c.event('same_paths', same)
    scenarios = []
    for i in range(n):
        k = kinds[int(rng.integers(len(kinds)))] if mixed else kind
        scenarios.append(Scenario(
            k, family, seed if twins else int(rng.integers(2 ** 31)),
            int(rng.integers(2 ** 31)), os.path.join(c.dir, 's%d' % (
                0 if same else i))))
    c.note(kinds=[s.kind.__name__ for s in scenarios], order=order,
           twins=twins, same_paths=same)
    from vlib import h5
    with h5.FlushSchedule() as sched:  # two appends of the writers, or never
        sched.scale = float(rng.choice([1, 0.5e9 / 200]))
        want = [alone(s) for s in scenarios]
        got, switches = together(scenarios, order, int(rng.integers(2 ** 31)))
    c.event('alone', n)
    c.event('together', n)
    c.event('switches', switches)
    c.event('twins', twins)
    c.event(event, sum(len(g) for g in got))
    for s, a, b in zip(scenarios, want, got):
        name = s.kind.__name__
        raised = [x for x in a if isinstance(x, str)
                  and x.startswith('raised')]
        if raised:  # alone: not a question of influence
            c.event('raised_alone')
            c.note(raised=raised)
        for i in range(max(len(a), len(b))):
            if i >= len(a) or i >= len(b):
                c.fail(name + '-steps', (len(b), len(a), b[-1:]))
                break
            d = differ(a[i], b[i], 'step {}'.format(i))
            if not c.check(d is None, name, d):
                break
    c.nontrivial([s.kind.__name__ for s in scenarios], order, twins,
                 [len(g) for g in got])


@group(quick=40, thorough=1200)
def storage(c):
    """Writers, appenders and readers of tables"""
    compare(c, [writer, appender, table_reader, dl1_reader], 'storage')


@group(quick=30, thorough=800)
def waveforms(c):
    """Waveform readers, subtraction and averages"""
    compare(c, [tio_reader, sim_reader, subtractor, averages], 'waveforms')


@group(quick=70, thorough=1600)
def reduction(c):
    """Chains and single reducers"""
    compare(c, [chain, reducer, reducer, reducer], 'reduction')


@group(quick=60, thorough=1200)
def calibration(c):
    """Calibration, masks, data sheet and matching"""
    compare(c, [time_calibrator, amplitude_calibrator, profile,
                waveform_calibrator, masks, data_sheet, matcher],
            'calibration')


@group(quick=20, thorough=800)
def statistics(c):
    """Charge resolution and statistics"""
    compare(c, [resolution], 'statistics')


@group(quick=24, thorough=800)
def fits(c):
    """Fitters: parameters, configuration and results"""
    compare(c, [fitter, fitter, fitter, applier], 'fits')


@group(quick=20, thorough=800)
def pixels(c):
    """Mappings and what is derived from them"""
    compare(c, [mappings], 'mappings')


@group(quick=30, thorough=800)
def displays(c):
    """Images and plots"""
    compare(c, [image, imshow, waveform_plot, resolution_plot], 'displays')
