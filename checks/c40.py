"""C40: monitor data in old DL1 files stays readable and matched to events"""
import os
import warnings

import numpy as np
import pandas as pd

from vlib.engine import group

LEVEL = 'exploration'
RULE = """DL1 files are generated with monitor tables for camera, modules and
pixels (any number of monitor events, devices and columns, missing values,
devices in any order) and index columns that repeat, skip and go backwards;
every value read through the real reader is compared with the generating
tables. Distinct by table sizes."""
REQUIRE = ['columns', 'arrays', 'averages', 'matched', 'announced',
           'without_monitor', 'tables', 'nan_values']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.core.io  # noqa


def monitor_table(rng, n_events, devices, columns):
    n = len(devices)
    df = pd.DataFrame(dict(
        imon=np.repeat(np.arange(n_events), n),
        idevice=np.tile(devices, n_events),
        t_cpu=np.repeat(pd.Timestamp('2018-07-01')
                        + pd.to_timedelta(np.arange(n_events) * 7, 's'), n)))
    for k in columns:
        v = rng.normal(30, 5, n * n_events)
        if rng.random() < 0.4:
            v[rng.random(v.size) < 0.1] = np.nan
        df[k] = v.astype(rng.choice([np.float32, np.float64]))
    return df


@group(quick=60, thorough=2500)
def reading(c):
    from CHECLabPy.core.io import HDF5Writer, DL1Reader
    rng = c.rng
    n_mon = int(rng.integers(1, 12))
    n_modules = int(rng.integers(1, 6))
    n_pixels = int(rng.integers(1, 20))
    n_events = int(rng.integers(1, 15))
    if rng.random() < 0.1:  # a full camera
        n_mon, n_modules = int(rng.integers(2, 5)), 32
        n_pixels = int(rng.choice([2048, 2000, 2500]))
    cols = dict(monitor_camera=['CHILLER_TEMP', 'FAN_SPEED'],
                monitor_tm=['TM_T_PRI', 'TM_T_AUX', 'TM_T_PSU'],
                monitor_pixel=['TM_SP_HV', 'TM_SP_DAC'])
    devices = dict(monitor_camera=np.zeros(1, dtype=int),
                   monitor_tm=np.arange(n_modules),
                   monitor_pixel=np.arange(n_pixels))
    tables = {}
    for k in cols:
        cols[k] = cols[k][:int(rng.integers(1, len(cols[k]) + 1))]
        if rng.random() < 0.3:
            devices[k] = rng.permutation(devices[k])
        tables[k] = monitor_table(rng, n_mon, devices[k], cols[k])
        c.event('nan_values', tables[k][cols[k]].isna().sum().sum())
    n_rows = n_events * n_pixels
    index = dict(
        monitor_camera_index=np.repeat(rng.integers(0, n_mon, n_events),
                                       n_pixels),
        monitor_tm_index=rng.integers(0, n_mon * n_modules, n_rows),
        monitor_pixel_index=rng.integers(0, n_mon * n_pixels, n_rows))
    df = pd.DataFrame(dict(
        iev=np.repeat(np.arange(n_events), n_pixels),
        pixel=np.tile(np.arange(n_pixels), n_events),
        charge=rng.normal(5, 3, n_rows).astype(np.float32), **index))
    path = c.path('Run1_dl1.h5')
    with HDF5Writer(path) as w:
        w.append(df, key='data')
        w.add_metadata(key='data', n_events=n_events, n_pixels=n_pixels,
                       is_mc=False, n_modules=n_modules)
    big = bool(rng.random() < 0.2)
    meta = dict(n_events=n_mon, n_modules=n_modules,
                n_bytes=int(9e9) if big else 12345)
    with pd.HDFStore(path, 'a') as st:
        for k, t in tables.items():
            st.append(k, t, index=False, data_columns=True)
        st.put('monitor_metadata', pd.DataFrame())
        st.get_storer('monitor_metadata').attrs.metadata = meta

    with DL1Reader(path) as r:
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter('always')
            m = r.monitor
        c.event('announced')
        c.check(any(issubclass(x.category, DeprecationWarning)
                    for x in got), 'not-announced')
        c.check((m.n_events, m.n_modules, m.n_bytes)
                == (n_mon, n_modules, meta['n_bytes']), 'metadata')
        c.check(dict(m.metadata) == meta, 'metadata')
        for k, short in (('monitor_camera', 'camera'), ('monitor_tm', 'tm'),
                         ('monitor_pixel', 'pixel')):
            t = tables[k]
            c.check(list(getattr(m, 'columns_' + short)) == list(t.columns),
                    'columns', k)
            load = getattr(m, 'load_entire_table_' + short)
            if big:
                c.raises(MemoryError, load, 'size-refused', k)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                full = load(force=big)
            c.event('tables')
            for col in t.columns:
                c.equal(full[col].values, t[col].values, 'table', (k, col))
            for col in cols[k]:
                v = t[col].values
                c.event('columns')
                c.check(m.get_key_for_column(col) == k, 'key-of-column', col)
                c.equal(m.select_column(col).values, v, 'column', col)
                n_dev = len(devices[k])
                c.event('arrays')
                c.equal(m.select_column_as_array(col),
                        v.reshape(n_mon, n_dev), 'array', col)
                c.equal(m.select_column_as_array(col, k),
                        v.reshape(n_mon, n_dev), 'array', col)
                i0, i1 = sorted(rng.integers(0, v.size + 1, 2))
                c.equal(m.select_column(col, start=i0, stop=i1).values,
                        v[i0:i1], 'column-part', col)
                want = []
                for d in sorted(devices[k]):
                    x = v[t['idevice'].values == d].astype(float)
                    x = x[~np.isnan(x)]
                    want.append(x.mean() if x.size else np.nan)
                c.event('averages', len(want))
                c.close(m.get_average(col), want, 'average', 1e-5, 1e-6, col)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    got = r.get_matched_monitor_column(col)
                c.event('matched', len(got))
                c.equal(np.asarray(got), v[index[k + '_index']],
                        'matched', col)
            two = m.select_columns(['idevice', cols[k][0]], k)
            c.equal(two[0].values, t['idevice'].values, 'columns-of-table', k)
            c.equal(two[1].values, t[cols[k][0]].values, 'columns-of-table')
        c.raises(KeyError, lambda: m.get_key_for_column('UNKNOWN'),
                 'unknown-column')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            c.raises(KeyError, lambda: r.get_matched_monitor_column('NONE'),
                     'unknown-column')
        # Events remain readable as before
        c.equal(r.select_column('charge').values, df['charge'].values,
                'events')
        c.check(r.n_rows == n_rows, 'rows')
    # Without monitor data
    other = c.path('Run2_dl1.h5')
    with HDF5Writer(other) as w:
        w.append(df.drop(columns=list(index)), key='data')
        w.add_metadata(key='data', n_events=n_events, n_pixels=n_pixels)
    with DL1Reader(other) as r:
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter('always')
            c.raises(AttributeError, lambda: r.monitor, 'no-monitor')
            c.raises(AttributeError,
                     lambda: r.get_matched_monitor_column('TM_T_PRI'),
                     'no-monitor')
        c.event('without_monitor')
        c.equal(r.select_column('charge').values, df['charge'].values,
                'events')
    os.remove(path)
    c.note(n_monitor=n_mon, n_modules=n_modules, n_pixels=n_pixels)
    c.nontrivial(n_mon, n_modules, n_pixels, n_events)
