"""C07: DL1 values equal calibration and extraction of that event"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Camera and simulation files with unique random waveforms per event
are reduced by the real executable under random flush schedules, column
configurations and event limits. Every stored value is compared with a
double-precision recomputation from the raw waveforms (time calibration,
rolling baseline, column definitions); integers and times exactly, types
exactly, floats within single-precision rounding. Distinct by events,
schedule and configuration."""
ASSUMPTIONS = ["stand-ins for target_io, target_calib and ctapipe",
               """the baseline history before the first processed event is the
               raw start of the file, as documented for the subtractor"""]
REQUIRE = ['values']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 3


def setup():
    import CHECLabPy.scripts.extract_dl1  # noqa


DTYPES = dict(iev='uint32', pixel='uint32', first_cell_id='uint16',
              t_tack='uint64', mc_true='uint32', t_cpu='datetime64[ns]')


def config(c):
    from CHECLabPy.core.chain import WaveformReducerChain
    if c.rng.random() < 0.4:
        return None, {k for k, v in
                      WaveformReducerChain.default_columns.items() if v}, {}
    cols = ['baseline_start_mean', 'baseline_start_rms', 'baseline_end_mean',
            'baseline_end_rms', 'waveform_mean', 'waveform_rms',
            'waveform_max', 'saturation_sum', 't_averagewf',
            'charge_averagewf', 't_cc', 'charge_cc', 'height_cc',
            't_cc_local', 'charge_cc_local', 'sp_max', 'sp_argmax',
            'charge_cc_nn']
    on = set(str(x) for x in c.rng.permutation(cols)[
        :int(c.rng.integers(1, len(cols)))])
    kw = {}
    if c.rng.random() < 0.5:
        kw = dict(window_size=int(c.rng.integers(2, 15)),
                  window_shift=int(c.rng.integers(0, 8)))
    path = c.path('config.yml')
    with open(path, 'w') as f:
        for k in cols:
            if k in on:
                f.write('{}: True\n'.format(k))
            elif c.rng.random() < 0.5:
                f.write('{}: False\n'.format(k))
        for k, v in kw.items():
            f.write('{}: {}\n'.format(k, v))
    return path, on, kw


def check_event(c, df, wf, base, on, kw, pulse, nbr, rtol):
    from vlib import ref
    scale = float(np.abs(wf).max()) + 1e-6
    n_samples = wf.shape[1]
    tol = rtol * scale

    def close(col, want, factor=1):
        if col in on:
            c.close(df[col].values, want, 'value-' + col, 1e-5,
                    tol * factor, col)
            c.event('values', len(df))

    c.close(df['baseline_subtracted'].values, base, 'value-baseline', 1e-5,
            tol)
    for k, v in ref.common(wf).items():
        close(k, v)
    ts = ref.event_times(wf)
    if 't_averagewf' in on:
        got = set(df['t_averagewf'].values.tolist())
        c.check(len(got) == 1 and got <= set(ts), 'value-t_averagewf',
                (got, ts))
        ts_a = list(got)
    else:
        ts_a = ts
    if 'charge_averagewf' in on:
        size, shift = kw.get('window_size', 6), kw.get('window_shift', 3)
        want = [ref.window_sum(wf, t - shift, t - shift + size) for t in ts_a]
        got = df['charge_averagewf'].values
        best = min(want, key=lambda w: np.abs(w - got).max())
        close('charge_averagewf', best, size)
    if 'saturation_sum' in on:
        shift = kw.get('window_shift', 4)
        want = [ref.window_sum(wf, t - shift, n_samples) for t in ts]
        got = df['saturation_sum'].values
        best = min(want, key=lambda w: np.abs(w - got).max())
        close('saturation_sum', best, n_samples)
    if on & {'t_cc', 'charge_cc', 'height_cc', 't_cc_local',
             'charge_cc_local', 'charge_cc_nn'}:
        cc = pulse.correlate(wf)
        eps = tol * 10
        avg = cc.mean(0)
        cand = ref.near_max(avg, eps)
        if 'charge_cc' in on:
            got = df['charge_cc'].values
            best = min((cc[:, t] for t in cand),
                       key=lambda w: np.abs(w - got).max())
            close('charge_cc', best, 20)
        if 'height_cc' in on and len(cand) == 1:
            close('height_cc', cc[:, cand[0]] * pulse.unit.max(), 20)
        if 't_cc' in on and len(cand) == 1:
            want = np.array([ref.peak_time(row, cand[0]) for row in cc])
            # the parabola is ill-conditioned where the peak is flat
            i = cand[0]
            curv = np.abs(cc[:, i - 1] - 2 * cc[:, i] + cc[:, i + 1]) \
                if 0 < i < n_samples - 1 else np.full(len(cc), np.inf)
            ok = (curv > 300 * tol) & (want > 0.5) & (want < n_samples - 1.5)
            ok &= np.abs(want - i) < 5
            c.close(df['t_cc'].values[ok], want[ok], 'value-t_cc', 1e-3, 0.1)
            c.event('values', int(ok.sum()))
        close('charge_cc_local', cc.max(1), 20)
        if 'charge_cc_nn' in on:
            nn = ref.neighbour_average(cc, nbr)
            got = df['charge_cc_nn'].values
            i = nn.argmax(1)
            gap = np.sort(nn, 1)
            ok = gap[:, -1] - gap[:, -2] > eps
            want = cc[np.arange(len(cc)), i]
            c.close(got[ok], want[ok], 'value-charge_cc_nn', 1e-5, 20 * tol)
            c.event('values', int(ok.sum()))
    if on & {'sp_max', 'sp_argmax'}:
        sp = wf.reshape(-1, 4, n_samples).sum(1)
        close('sp_max', np.repeat(sp.max(1), 4), 4)
        if 'sp_argmax' in on:
            i = df['sp_argmax'].values.astype(int)
            row = np.repeat(np.arange(len(sp)), 4)
            c.close(sp[row, i], np.repeat(sp.max(1), 4), 'value-sp_argmax',
                    1e-5, 8 * tol)
            c.event('values', len(i))


def check_types(c, df, on):
    for col in df.columns:
        if col in DTYPES:
            c.check(str(df[col].dtype) == DTYPES[col], 'type-' + col,
                    df[col].dtype)
        elif df[col].dtype.kind == 'f':
            c.check(df[col].dtype == np.float32, 'type-float', (
                col, df[col].dtype))
    extra = {'iev', 'pixel', 't_cpu', 't_tack', 'first_cell_id',
             'baseline_subtracted'}
    got = set(df.columns) - {'mc_true'}
    c.check(got == extra | on, 'columns', got ^ (extra | on))


@group(quick=16, thorough=400)
def camera_files(c):
    from CHECLabPy.core.io import DL1Reader
    from target_calib import CameraConfiguration
    from vlib import dl1, files, ref, camera
    n_modules = int(c.rng.choice([1, 4]))
    version = '9.2.0' if n_modules == 4 else str(
        c.rng.choice(['1.1.0', '1.0.1']))
    n_total = 3 + int(c.rng.choice([1, 4, 12, 55, 70], p=[.2, .3, .3, .1, .1]))
    run = files.random_run(c.rng, n_total, camera=version,
                           n_modules=n_modules, bad=0.2)
    if c.rng.random() < 0.25:  # very large and very small signals
        run['waveforms'] *= np.float32(10.0 ** c.rng.integers(-4, 6))
    max_events = int(c.rng.integers(1, n_total)) \
        if c.rng.random() < 0.3 else None
    exp = dl1.ExpectedTIO(run, max_events)
    path = c.path('Run01_r1.tio')
    files.write_tio(path, run)
    cfg, on, kw = config(c)
    what, scale = dl1.flush_scale(c.rng, n_modules * 64)
    out = c.path('out.h5')
    dl1.extract(path, out, cfg, max_events, scale)
    c.note(n_total=n_total, schedule=what, columns=sorted(on), **kw)
    if not exp.events:
        c.nontrivial('empty')
        return
    pulse = ref.Pulse(CameraConfiguration(version).GetReferencePulsePath())
    nbr = camera.neighbours(camera.mapping_of(
        'quad' if n_modules == 4 else 'module'))
    with DL1Reader(out) as reader:
        df = reader.load_entire_table(force=True)
    check_types(c, df, on)
    if not dl1.check_rows(c, df, exp.ievs, n_modules * 64):
        return
    n_pix = n_modules * 64
    for k, (iev, i, wf, base) in enumerate(exp.waveforms(dl1.t_cor())):
        d = df.iloc[k * n_pix:(k + 1) * n_pix]
        c.equal(d['t_tack'].values,
                np.full(n_pix, run['TACK'][i], np.uint64), 'value-t_tack')
        c.equal(d['first_cell_id'].values,
                np.full(n_pix, run['FCI'][i], np.uint16), 'value-cell')
        c.equal(d['t_cpu'].values, np.full(n_pix, exp.t_cpu(i)),
                'value-t_cpu')
        check_event(c, d, wf, base, on, kw, pulse, nbr, 2e-5)
    c.nontrivial(n_total, what, len(on), sorted(kw.values()))


@group(quick=5, thorough=60)
def simulations(c):
    from CHECLabPy.core.io import DL1Reader
    from target_calib import CameraConfiguration
    from vlib import dl1, files, ref, camera
    n_events = int(c.rng.integers(1, 6))
    sim = files.random_sim(c.rng, n_events)
    exp = dl1.ExpectedSim(sim)
    path = c.path('x.simtel.gz')
    files.write_simtel(path, sim)
    cfg, on, kw = config(c)
    what, scale = dl1.flush_scale(c.rng, 2048)
    out = c.path('out.h5')
    dl1.extract(path, out, cfg, None, scale)
    c.note(n_events=n_events, schedule=what, columns=sorted(on), **kw)
    pulse = ref.Pulse(CameraConfiguration('1.1.0').GetReferencePulsePath())
    nbr = camera.neighbours(camera.mapping_of('checs')) \
        if 'charge_cc_nn' in on else None
    with DL1Reader(out) as reader:
        df = reader.load_entire_table(force=True)
    check_types(c, df, on)
    if not dl1.check_rows(c, df, exp.ievs, 2048):
        return
    for k, (iev, i, wf, base) in enumerate(exp.waveforms()):
        d = df.iloc[k * 2048:(k + 1) * 2048]
        c.equal(d['mc_true'].values, exp.mc_true(i), 'value-mc_true')
        t = np.datetime64(int(round(sim['gps'][i] * 1e9)), 'ns')
        c.check(abs(d['t_cpu'].values - t).max() <= np.timedelta64(2, 'us'),
                'value-t_cpu')
        check_event(c, d, wf, base, on, kw, pulse, nbr, 2e-5)
    c.nontrivial('sim', n_events, what, len(on))
