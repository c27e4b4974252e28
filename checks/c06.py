"""C06: a DL1 file holds each processed event-pixel exactly once"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Generated camera files (1 or 4 modules) and simulation files with
random numbers of events, patterns of stale and incomplete events (none, some,
blocks, all), event limits and flush schedules are reduced by the real
extract_dl1 executable; the (event, pixel) pairs in the file are compared with
those of the events served by the stand-in reader, and the counts, times and
per-event simulation tables with the source. Distinct by events, skipped
events, limit and schedule."""
ASSUMPTIONS = ["stand-ins for target_io, target_calib and ctapipe serve the "
               "generated events as the real libraries would"]
REQUIRE = ['rows', 'files']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 3


def setup():
    import CHECLabPy.scripts.extract_dl1  # noqa


def bad_pattern(c, run):
    n = len(run['STALE'])
    what = str(c.rng.choice(['none', 'some', 'half', 'block', 'first',
                             'last', 'all', 'only_missing']))
    stale = np.zeros(n, np.int16)
    missing = np.zeros(n, np.int16)
    if what == 'some':
        stale[c.rng.random(n) < 0.1] = 1
        missing[c.rng.random(n) < 0.1] = 1
    elif what == 'half':
        stale[c.rng.random(n) < 0.5] = 1
        missing[c.rng.random(n) < 0.3] = 1
    elif what == 'block':
        a = int(c.rng.integers(0, n))
        stale[a:a + int(c.rng.integers(1, 10))] = 1
    elif what == 'first':
        stale[:4] = 1
    elif what == 'last':
        missing[-4:] = 1
    elif what == 'all':
        stale[:] = 1
    elif what == 'only_missing':
        missing[c.rng.random(n) < 0.4] = 1
    run['STALE'], run['MISSING'] = stale, missing
    return what


def config_file(c):
    """A cheap set of columns; the statement is about rows"""
    path = c.path('config.yml')
    with open(path, 'w') as f:
        f.write('waveform_max: True\nbaseline_start_mean: True\n')
        if c.rng.random() < 0.3:
            f.write('charge_averagewf: True\nt_averagewf: True\n')
    return path


def check_meta(c, reader, exp, tmin, tmax):
    meta = reader.metadata
    c.check(meta['n_events'] == len(exp.events), 'n-events',
            (meta['n_events'], len(exp.events)))
    c.check(meta['n_skipped'] == exp.n_read - len(exp.events), 'n-skipped',
            (meta['n_skipped'], exp.n_read))
    c.check(meta['n_events'] + meta['n_skipped'] == exp.n_read,
            'events-conserved', meta)
    if exp.events:
        tol = np.timedelta64(2, 'us') if tmin[1] else np.timedelta64(0, 'ns')
        for name, want in (('start_time', tmin[0]), ('end_time', tmax[0])):
            got = np.datetime64(meta[name].value, 'ns')
            c.check(abs(got - want) <= tol, name, (got, want))
    else:
        c.check(meta['start_time'] is None and meta['end_time'] is None,
                'times-without-events', meta)


@group(quick=28, thorough=900)
def camera_files(c):
    from CHECLabPy.core.io import DL1Reader
    from vlib import dl1, files
    n_modules = int(c.rng.choice([1, 1, 4]))
    camera = '9.2.0' if n_modules == 4 else '1.1.0'
    n_total = 3 + int(c.rng.choice([1, 2, 3, 10, 30, 55, 75]))
    run = files.random_run(c.rng, n_total, camera=camera,
                           n_modules=n_modules,
                           n_samples=int(c.rng.choice([40, 128])))
    pattern = bad_pattern(c, run)
    max_events = None
    if c.rng.random() < 0.5:
        max_events = int(c.rng.integers(1, n_total + 3))
    exp = dl1.ExpectedTIO(run, max_events)
    path = c.path('Run01_r1.tio')
    files.write_tio(path, run)
    what, scale = dl1.flush_scale(c.rng, n_modules * 64, 9)
    out = c.path('out.h5')
    sched = dl1.extract(path, out, config_file(c), max_events, scale)
    c.event('flushes', sched.flushes)
    c.event('files')
    c.note(n_total=n_total, pattern=pattern, max_events=max_events,
           schedule=what, flushes=sched.flushes, n_pixels=n_modules * 64)
    with DL1Reader(out) as reader:
        check_meta(c, reader, exp,
                   (exp.t_cpu(exp.events[0][1]) if exp.events else 0, 0),
                   (exp.t_cpu(exp.events[-1][1]) if exp.events else 0, 0))
        if not exp.events:
            c.check('data' not in reader.dataframe_keys, 'rows-invented')
            c.nontrivial('none', pattern, max_events)
            return
        df = reader.load_entire_table(force=True)
        dl1.check_rows(c, df, exp.ievs, n_modules * 64)
    c.nontrivial(n_total, pattern, max_events, what, sched.flushes)


@group(quick=8, thorough=120)
def simulations(c):
    from CHECLabPy.core.io import DL1Reader
    from ctapipe.io import MC, POINTING
    from vlib import dl1, files
    n_events = int(c.rng.choice([1, 2, 5, 9]))
    sim = files.random_sim(c.rng, n_events, n_samples=64)
    max_events = int(c.rng.integers(1, n_events + 2)) \
        if c.rng.random() < 0.5 else None
    exp = dl1.ExpectedSim(sim, max_events)
    path = c.path('gamma.simtel.gz')
    files.write_simtel(path, sim)
    what, scale = dl1.flush_scale(c.rng, 2048, 9)
    out = c.path('out.h5')
    sched = dl1.extract(path, out, config_file(c), max_events, scale)
    c.event('flushes', sched.flushes)
    c.event('files')
    c.note(n_events=n_events, max_events=max_events, schedule=what)

    def t(i):
        return np.datetime64(int(round(sim['gps'][i] * 1e9)), 'ns')

    with DL1Reader(out) as reader:
        check_meta(c, reader, exp, (t(0), 1), (t(exp.n_read - 1), 1))
        df = reader.load_entire_table(force=True)
        dl1.check_rows(c, df, exp.ievs, 2048)
        if c.check('mc_true' in df.columns, 'sim-column', list(df.columns)):
            c.equal(df['mc_true'].values, np.concatenate(
                [exp.mc_true(i) for i in range(exp.n_read)]), 'sim-mc_true')
        for key, names in (('mc', MC), ('pointing', POINTING)):
            tab = reader.read(key, force=True)
            c.equal(tab['iev'].values, exp.ievs, 'sim-tables', key)
            for name in names:
                c.close(tab[name].values, sim[name][:exp.n_read],
                        'sim-values', 1e-6, 0, name)
            c.event('sim_rows', len(tab))
    c.nontrivial('sim', n_events, max_events, what)


@group(quick=8, thorough=80)
def several_files(c):
    """One call for several files: each is reduced as if it were alone"""
    from CHECLabPy.core.io import DL1Reader
    from CHECLabPy.scripts import extract_dl1
    from vlib import dl1, files
    paths, expected = [], []
    max_events = int(c.rng.integers(1, 9)) if c.rng.random() < 0.7 else None
    for i in range(int(c.rng.integers(2, 4))):
        run = files.random_run(c.rng, 3 + int(c.rng.integers(1, 12)),
                               camera='1.1.0', n_modules=1, n_samples=40)
        bad_pattern(c, run)
        paths.append(c.path('Run{:02d}_r1.tio'.format(9 - i)))
        files.write_tio(paths[-1], run)
        expected.append(dl1.ExpectedTIO(run, max_events))
    argv = ['-f'] + paths
    config = config_file(c)
    if config:
        argv += ['-c', config]
    if max_events:
        argv += ['-n', max_events]
    dl1.run_script(extract_dl1, argv)
    for path, exp in zip(paths, expected):
        with DL1Reader(path.replace('_r1.tio', '_dl1.h5')) as reader:
            check_meta(c, reader, exp,
                       (exp.t_cpu(exp.events[0][1]) if exp.events else 0, 0),
                       (exp.t_cpu(exp.events[-1][1]) if exp.events else 0,
                        0))
            c.event('files')
            if not exp.events:
                c.check('data' not in reader.dataframe_keys, 'rows-invented')
                continue
            dl1.check_rows(c, reader.load_entire_table(force=True), exp.ievs,
                           64)
    c.note(files=len(paths), max_events=max_events)
    c.nontrivial('files', len(paths), max_events)


@group(quick=6, thorough=60)
def large_numbers(c):
    """Event numbers beyond 8, 16 and 31 bits, as in long runs"""
    from CHECLabPy.core.io import DL1Reader, ReaderR1
    from CHECLabPy.scripts.extract_dl1 import DL1Extractor, DL1Writer
    from vlib import dl1, files
    n_total = 3 + int(c.rng.integers(2, 12))
    run = files.random_run(c.rng, n_total, camera='1.1.0', n_modules=1,
                           n_samples=40, bad=0)
    exp = dl1.ExpectedTIO(run)
    path = c.path('Run01_r1.tio')
    files.write_tio(path, run)
    offset = int(c.rng.choice([250, 32760, 65530, 2 ** 24 - 3, 2 ** 31 - 5]))

    class Later(DL1Extractor):
        """The events of a piece of a longer run"""

        def __call__(self, waveforms):
            res = super().__call__(waveforms)
            res['iev'] = res['iev'] + offset
            return res

    out = c.path('out.h5')
    reader = ReaderR1(path)
    DL1Writer.write_dl1_file(reader, Later(reader, config_file(c)), out)
    ievs = [i + offset for i in exp.ievs]
    with DL1Reader(out) as r:
        dl1.check_rows(c, r.load_entire_table(force=True), ievs, 64)
        for iev in ievs:
            got = r[iev]
            c.check(len(got) == 64 and set(got['iev']) == {iev},
                    'read-by-number', (iev, set(got['iev'])))
    c.event('files')
    c.note(offset=offset)
    c.nontrivial(offset, len(ievs))
