"""C09: all ways of reading events from a DL1 file agree"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """DL1 files made by the real extraction (with gaps from skipped events)
are read by event number, position, event iteration, event selection, rows,
chunks, row ranges and columns, in random interleavings on one reader; each
result must be the corresponding part of the entire table read once with
pandas. Distinct by events, gaps and operations."""
ASSUMPTIONS = ["stand-ins for target_io and target_calib"]
REQUIRE = ['reads', 'lookups', 'refusals']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 2


def setup():
    import CHECLabPy.scripts.extract_dl1  # noqa


def make(c, n_modules=None):
    import pandas as pd
    from vlib import dl1, files
    n_modules = n_modules or int(c.rng.choice([1, 1, 4]))
    camera = '9.2.0' if n_modules == 4 else '1.1.0'
    n_total = 3 + int(c.rng.integers(2, 25))
    run = files.random_run(c.rng, n_total, camera=camera,
                           n_modules=n_modules, n_samples=40,
                           bad=float(c.rng.choice([0, 0.1, 0.4])))
    run['STALE'][3] = run['MISSING'][3] = 0
    if c.rng.random() < 0.5:
        run['STALE'][2] = 1
    exp = dl1.ExpectedTIO(run)
    path, out = c.path('x_r1.tio'), c.path('x_dl1.h5')
    files.write_tio(path, run)
    cfg = c.path('cfg.yml')
    with open(cfg, 'w') as f:
        f.write('waveform_max: True\nwaveform_rms: True\n')
    what, scale = dl1.flush_scale(c.rng, n_modules * 64, 8)
    dl1.extract(path, out, cfg, None, scale)
    with pd.HDFStore(out, 'r') as store:
        whole = store['data'].reset_index(drop=True)
    return out, whole, exp, run, n_modules * 64


@group(quick=24, thorough=800)
def interleaved(c):
    from CHECLabPy.core.io import DL1Reader
    from vlib import h5
    out, whole, exp, run, n_pix = make(c)
    ievs = exp.ievs
    n_ev = len(ievs)
    ops = []

    def same(got, want, mech):
        h5.compare_frames(c, got, want, mech)
        c.event('reads')

    with DL1Reader(out) as reader:
        for _ in range(12):
            op = str(c.rng.choice([
                'number', 'position', 'events', 'selected', 'chunks',
                'missing', 'columns', 'select', 'whole', 'interrupted']))
            ops.append(op)
            if op == 'number':
                for k in c.rng.permutation(n_ev)[:4]:
                    same(reader[int(ievs[k])],
                         whole[whole['iev'] == ievs[k]], 'by-number')
                    c.event('lookups')
            elif op == 'position':
                for k in c.rng.permutation(n_ev)[:3]:
                    same(reader.select_event_index(int(k)),
                         whole[whole['iev'] == ievs[k]], 'by-position')
            elif op == 'events':
                n = 0
                for k, df in enumerate(reader.iterate_over_events()):
                    same(df, whole.iloc[k * n_pix:(k + 1) * n_pix],
                         'iterate-events')
                    n += 1
                c.check(n == n_ev, 'iterate-events-number', (n, n_ev))
            elif op == 'selected':
                sel = sorted(set(c.rng.choice(ievs, int(
                    c.rng.integers(1, n_ev + 1))).tolist()))
                # numbers of events that are not in the file select nothing
                gone = [i for i in range(-1, exp.n_read + 2)
                        if i not in ievs] + [10 ** 6]
                gone += [int(ievs[0]) + k for k in (-2 ** 16, 2 ** 16,
                                                    2 ** 32)]
                gone = [int(i) for i in c.rng.permutation(gone)[
                    :int(c.rng.integers(0, 4))]]
                ask = sorted(sel + gone)
                if c.rng.random() < 0.3:
                    ask = np.array(ask)
                got = list(reader.iterate_over_selected_events(ask))
                if c.check(len(got) == len(sel), 'selection-number',
                           (len(got), sel)):
                    for iev, df in zip(sel, got):
                        same(df, whole[whole['iev'] == iev], 'selection')
                for _ in range(3):  # short lists, in any order
                    a = int(c.rng.integers(-1, exp.n_read + 1))
                    b = a + int(c.rng.integers(1, 8))
                    ask = c.rng.permutation(np.arange(a, b))
                    ask = ask[:int(c.rng.integers(1, len(ask) + 1))]
                    sel = sorted(set(ask.tolist()) & set(map(int, ievs)))
                    got = list(reader.iterate_over_selected_events(
                        ask if c.rng.random() < 0.5 else ask.tolist()))
                    if c.check(len(got) == len(sel), 'selection-number',
                               (ask, len(got), sel)):
                        for iev, df in zip(sel, got):
                            same(df, whole[whole['iev'] == iev], 'selection')
            elif op == 'chunks':
                size = int(c.rng.integers(5, len(whole) + 20))
                most = len(whole)
                if c.rng.random() < 0.3:  # down to single rows
                    size, most = int(c.rng.integers(1, 5)), 60
                n = 0
                for df in reader.iterate_over_chunks(size):
                    same(df, whole.iloc[n:n + size], 'chunks')
                    n += len(df)
                    if n >= most:
                        break
                c.check(n >= most, 'chunks-cover', (n, len(whole)))
            elif op == 'missing':
                bad = [i for i in range(-1, exp.n_read + 2)
                       if i not in ievs]
                for i in c.rng.permutation(bad)[:3]:
                    c.raises((IndexError, KeyError), lambda: reader[int(i)],
                             'missing-event', i)
                    c.event('refusals')
            elif op == 'columns':
                cols = [str(x) for x in c.rng.permutation(whole.columns)[:3]]
                got = reader.select_columns(cols)
                for name, col in zip(cols, got):
                    same(col.to_frame(name), whole[[name]], 'columns')
                same(reader.select_column(cols[0]).to_frame(cols[0]),
                     whole[cols[:1]], 'column')
                a = int(c.rng.integers(0, len(whole)))
                b = int(c.rng.integers(a + 1, len(whole) + 1))
                if c.rng.random() < 0.4:  # a column asked for twice
                    cols = cols + cols[:1]
                got = reader.select_columns(cols, start=a, stop=b)
                c.check(len(got) == len(cols), 'columns-number',
                        (cols, len(got)))
                for name, col in zip(cols, got):
                    same(col.to_frame(name), whole[[name]].iloc[a:b],
                         'columns-range')
            elif op == 'select':
                a = int(c.rng.integers(0, len(whole)))
                b = int(c.rng.integers(a + 1, len(whole) + 1))
                same(reader.select(start=a, stop=b), whole.iloc[a:b],
                     'select')
                pix = int(c.rng.integers(n_pix))
                same(reader.select(where='pixel=={}'.format(pix)),
                     whole[whole['pixel'] == pix], 'select-where')
            elif op == 'whole':
                same(reader.load_entire_table(force=True), whole, 'whole')
            else:
                it = reader.iterate_over_events()
                next(it)
                same(reader[int(ievs[-1])], whole.iloc[-n_pix:],
                     'by-number')
                if n_ev > 1:
                    same(next(it), whole.iloc[n_pix:2 * n_pix],
                         'iterate-events')
                it.close()
    c.note(n_events=n_ev, gaps=exp.n_read - n_ev, ops=ops)
    c.nontrivial(n_ev, exp.n_read, n_pix, '-'.join(sorted(set(ops))))


@group(quick=3, thorough=20)
def rows(c):
    from CHECLabPy.core.io import DL1Reader
    out, whole, exp, run, n_pix = make(c, 1)
    with DL1Reader(out) as reader:
        n = 0
        for row in reader.iterate_over_rows():
            if n < len(whole):
                c.equal(np.asarray(row['iev']).ravel(),
                        [whole['iev'][n]], 'rows')
                c.equal(np.asarray(row['pixel']).ravel(),
                        [whole['pixel'][n]], 'rows')
                c.equal(np.asarray(row['waveform_max']).ravel(),
                        [whole['waveform_max'][n]], 'rows')
            n += 1
            if n >= 2000:
                break
        c.check(n == min(len(whole), 2000), 'rows-number', (n, len(whole)))
        c.event('reads', n)
    c.nontrivial(len(whole))


def small(c):
    """A DL1 file of any number of pixels, written event by event"""
    import pandas as pd
    from CHECLabPy.core.io import HDF5Writer
    from vlib import camera
    rng = c.rng
    n_pix = int(rng.choice([1, 2, 3, 5, 7, 13]))
    n_ev = int(rng.integers(1, 9))
    ievs = np.sort(rng.permutation(3 * n_ev)[:n_ev])
    out = c.path('small_dl1.h5')
    frames = []
    with HDF5Writer(out) as w:
        for iev in ievs:
            df = pd.DataFrame(dict(
                iev=np.full(n_pix, iev), pixel=np.arange(n_pix),
                waveform_max=rng.normal(0, 9, n_pix)))
            frames.append(df)
            w.append(df.copy())
        w.add_metadata(
            date_generated=pd.Timestamp(10 ** 18), input_path='x',
            n_events=n_ev, n_modules=int(rng.choice([1, 1, 2, 3, n_pix])),
            camera_version='1.1.0', n_pixels=n_pix, n_samples=32, n_cells=1, is_mc=False)
        w.add_mapping(camera.mapping_of('quad'))
    return out, pd.concat(frames, ignore_index=True), ievs, n_pix


@group(quick=24, thorough=800)
def small_files(c):
    """Any number of pixels, modules, chunks and rows"""
    from CHECLabPy.core.io import DL1Reader
    from vlib import h5
    out, whole, ievs, n_pix = small(c)
    with DL1Reader(out) as reader:
        c.check(reader.n_rows == len(whole), 'n-rows', reader.n_rows)
        c.check(bool(reader.tc_mapping.IsSingleModule())
                == (reader.n_modules == 1), 'tc-mapping', reader.n_modules)
        rows = list(reader.iterate_over_rows())
        c.check(len(rows) == len(whole), 'rows-number',
                (len(rows), len(whole)))
        for n, row in enumerate(rows[:len(whole)]):
            h5.compare_frames(c, row, whole.iloc[n:n + 1], 'rows')
            c.event('reads')
        for size in c.rng.permutation(np.arange(1, len(whole) + 3))[:5]:
            n = 0
            for df in reader.iterate_over_chunks(int(size)):
                h5.compare_frames(c, df, whole.iloc[n:n + size], 'chunks')
                n += len(df)
                c.event('reads')
            c.check(n == len(whole), 'chunks-cover', (n, len(whole)))
        n = 0
        for n, df in enumerate(reader.iterate_over_events(), 1):
            h5.compare_frames(c, df, whole[whole['iev'] == ievs[n - 1]],
                              'iterate-events')
        c.check(n == len(ievs), 'iterate-events-number', (n, len(ievs)))
        for k in c.rng.permutation(len(ievs)):
            want = whole[whole['iev'] == ievs[k]]
            h5.compare_frames(c, reader[int(ievs[k])], want, 'by-number')
            h5.compare_frames(c, reader.select_event_index(int(k)), want,
                              'by-position')
            c.event('lookups')
        # behind the last event there is nothing
        for k in (len(ievs), len(ievs) + int(c.rng.integers(1, 9))):
            try:
                got = reader.select_event_index(k)
            except (IndexError, KeyError, ValueError):
                got = ()
            c.check(len(got) == 0, 'position-behind', (k, len(got)))
        for i in [*range(-2, 3 * len(ievs) + 2), ievs[-1] + 2 ** 16,
                  ievs[0] - 2 ** 16, ievs[0] + 2 ** 32]:
            i = int(i)
            if i not in ievs:
                c.raises((IndexError, KeyError), lambda: reader[i],
                         'missing-event', i)
                c.event('refusals')
    c.note(n_pix=n_pix, events=ievs)
    c.nontrivial(n_pix, len(ievs))


@group(quick=6, thorough=60)
def properties(c):
    from CHECLabPy.core.io import DL1Reader
    # one in six with the whole camera
    out, whole, exp, run, n_pix = make(c, 32 if c.index % 6 == 3 else None)
    n_mod = n_pix // 64
    with DL1Reader(out) as reader:
        c.check(reader.n_events == len(exp.events), 'n-events')
        c.check(reader.n_rows == len(whole), 'n-rows', reader.n_rows)
        c.check(reader.n_pixels == n_pix, 'n-pixels')
        c.check(reader.n_modules == n_mod, 'n-modules')
        c.check(reader.n_samples == 40, 'n-samples')
        c.check(list(reader.columns) == list(whole.columns), 'columns')
        c.check(reader.n_bytes > 0, 'n-bytes')
        c.check(reader.is_mc is False or reader.is_mc == False,  # noqa
                'is-mc')
        c.check(len(reader.mapping) == n_pix, 'mapping')
        c.check(reader.tc_mapping.GetNPixels() == n_pix, 'tc-mapping')
        for tm in range(n_mod):
            c.check(reader.get_sn(tm) == run['SN'][tm], 'sn')
            c.check(reader.get_sipm_temp(tm) == run['TSIPM'][tm], 'temp')
            c.check(reader.get_primary_temp(tm) == run['TPRIM'][tm], 'temp')
            sp = int(c.rng.integers(16))
            c.check(reader.get_sp_dac(tm, sp) == run['DAC'][tm, sp], 'dac')
            c.check(reader.get_sp_hvon(tm, sp) == run['HVON'][tm, sp],
                    'hvon')
        for f in (reader.get_sn, reader.get_sipm_temp,
                  reader.get_primary_temp):
            for tm in (n_mod, n_mod + 1, 99):
                c.raises(IndexError, lambda: f(tm), 'module-range', tm)
                c.event('refusals')
        for f in (reader.get_sp_dac, reader.get_sp_hvon):
            for a in ((n_mod, 0), (0, 16), (n_mod - 1, 99), (99, 99)):
                c.raises(IndexError, lambda: f(*a), 'superpixel-range', a)
                c.event('refusals')
    c.nontrivial(n_mod, len(exp.events))


@group(quick=8, thorough=120)
def size_guard(c):
    """The whole of a large table is only loaded when insisted upon"""
    from CHECLabPy.core.io import DL1Reader
    from checks.c05 import set_n_bytes
    from vlib import h5
    out, whole, exp, run, n_pix = make(c, 1)
    total = int(c.rng.choice([
        10 ** 6, 7_999_999_000, 8_000_000_000, 8_000_001_000, 20_000_000_000,
        8_100_000_000, 8_900_000_000]))
    set_n_bytes(out, 'data', total)
    with DL1Reader(out) as reader:
        with h5.collect_warnings() as w:
            try:
                h5.compare_frames(c, reader.load_entire_table(), whole,
                                  'whole')
                refused = False
            except MemoryError:
                refused = True
        c.check(refused == (total > 8e9), 'guard', (refused, total))
        with h5.collect_warnings() as w:
            h5.compare_frames(c, reader.load_entire_table(force=True), whole,
                              'forced')
        big = [x for x in w if '8GB' in str(x.message)
               or 'larger' in str(x.message)]
        c.check(bool(big) == (total > 8e9), 'guard-warning',
                (len(big), total))
    c.event('guards')
    c.note(total=total)
    c.nontrivial(total, len(whole))
