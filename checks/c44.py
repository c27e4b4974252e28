"""C44: conversion to ROOT carries every row, column and metadata entry"""
import os
import runpy
import sys

import numpy as np
import pandas as pd

from vlib.engine import group

LEVEL = 'exploration'
RULE = """DL1 files with random columns, types, metadata and mappings are
converted by the real executable with stand-ins that record every tree; the
recorded trees are compared with the generating tables. Distinct by columns
and metadata."""
ASSUMPTIONS = ["stand-ins for ROOT and root_numpy, which are not installed",
               "files without the deprecated monitor tables"]
REQUIRE = ['conversions', 'rows', 'metadata', 'mapping_rows', 'times']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 6


def setup():
    import CHECLabPy.core.io  # noqa


@group(quick=40, thorough=1500)
def convert(c):
    from CHECLabPy.core.io import HDF5Writer
    from checks.c37 import small_mapping
    import ROOT
    rng = c.rng
    n_pixels, n_events = int(rng.choice([1, 4, 64])), int(rng.integers(1, 30))
    n = n_pixels * n_events
    df = pd.DataFrame(dict(
        iev=np.repeat(np.arange(n_events, dtype=np.uint32), n_pixels),
        pixel=np.tile(np.arange(n_pixels, dtype=np.uint32), n_events)))
    if rng.random() < 0.8:
        df['t_cpu'] = np.repeat(pd.to_datetime(
            rng.integers(0, 2 * 10 ** 18, n_events)), n_pixels)
    for i in range(int(rng.integers(0, 6))):
        dt = rng.choice([np.float32, np.float64, np.int64, np.uint16, bool])
        v = rng.normal(20, 9, n)
        if dt in (np.float32, np.float64) and rng.random() < 0.3:
            v[rng.random(n) < 0.2] = np.nan
        df['col{}'.format(i)] = v.astype(dt) if dt is not bool else v > 20
    if rng.random() < 0.6:  # columns as the reducers name them
        for k, dt in (('t_cc', np.float32), ('t_tack', np.uint64),
                      ('t_averagewf', np.int64), ('t_pulse', np.float64),
                      ('first_cell_id', np.uint16)):
            if rng.random() < 0.6:
                df[k] = rng.uniform(0, 100, n).astype(dt)
    meta = dict(n_events=n_events, n_pixels=n_pixels,
                is_mc=bool(rng.random() < 0.5), n_modules=1,
                source=str(rng.choice(['Run{}', ' dark run {} ', 'a\tb{}\n', 'no=1,{}']))
                .format(rng.integers(999)),
                camera_version=str(rng.choice(['1.1.0', ''])))
    unit = str(rng.choice(['s', 'ms', 'us', 'ns']))
    stamps = {k: pd.Timestamp(int(rng.integers(10 ** 9, 2 * 10 ** 9)) *
                              10 ** 9).as_unit(unit)
              for k in ['date_generated', 'start_time'][
                  :int(rng.integers(0, 3))]}
    meta.update(stamps)
    if rng.random() < 0.3:
        meta['temperature'] = float(rng.normal())
    if rng.random() < 0.3:
        meta['config'] = None
    path = c.path(str(rng.choice(['Run1_dl1.h5', 'a.b_dl1.h5', 'plain'])))
    m = small_mapping(rng, n_pixels)
    cut = int(rng.integers(0, n + 1))
    with HDF5Writer(path) as w:
        w.append(df.iloc[:cut] if cut else df, key='data')
        if 0 < cut < n:
            w.append(df.iloc[cut:], key='data')
        w.add_metadata(key='data', name='metadata', **meta)
        w.add_mapping(m)
    out = c.path('out.root') if rng.random() < 0.5 else None
    with open(path, 'rb') as f:
        before = f.read()
    ROOT.LOG.clear()
    argv = sys.argv
    sys.argv = ['convert', '-i', path] + (['-o', out] if out else [])
    try:
        runpy.run_module('CHECLabPy.scripts.convert_hd52root',
                         run_name='__main__')
    finally:
        sys.argv = argv
    c.event('conversions')
    with open(path, 'rb') as f:
        c.check(f.read() == before, 'input-changed')
    log = list(ROOT.LOG)
    name = out or os.path.splitext(path)[0] + '.root'
    kinds = [e[0] for e in log if e[0] in ('open', 'write', 'close')]
    c.check(kinds == ['open', 'write', 'close'], 'file-order', kinds)
    c.check(all(e[1] == name for e in log
                if e[0] in ('open', 'write', 'close')), 'file-name',
            (name, [e[1] for e in log if e[0] == 'open']))
    first = [e[0] for e in log].index('open')
    last = [e[0] for e in log].index('write')
    arrays = {e[1]: e[2] for e in log[first:last] if e[0] == 'array'}
    if not c.check(set(arrays) == {'tMeta', 'tData', 'tMapping'}, 'trees',
                   list(arrays)):
        return
    for tree, want in (('tData', df), ('tMapping', m)):
        a = arrays[tree]
        if not c.check(list(a.dtype.names) == list(want.columns),
                       tree + '-columns', a.dtype.names):
            continue
        c.event('rows' if tree == 'tData' else 'mapping_rows', len(a))
        for k in want.columns:
            v = want[k].values
            if v.dtype.kind == 'M':
                v = v.astype('datetime64[ns]').astype(np.int64)
                c.event('times', v.size)
            c.check(a[k].dtype.kind == v.dtype.kind, tree + '-types',
                    (k, a[k].dtype))
            c.equal(a[k], v, tree + '-values', k)
    a = arrays['tMeta']
    tree = [e[1] for e in log if e[0] == 'tree' and e[1].name == 'tMeta']
    if not c.check(len(a) == 1 and len(tree) == 1 and len(tree[0].rows) == 1,
                   'metadata-once'):
        return
    text = tree[0].rows[0]
    for k, v in meta.items():
        c.event('metadata')
        if k in stamps:
            v = int(v.as_unit('ns').asm8.astype(np.int64))
        if v is None or isinstance(v, str):
            c.check(text.get(k) == str(v), 'metadata-text', (k, text, v))
        elif c.check(k in a.dtype.names, 'metadata-missing', k):
            c.check(a[k][0] == v, 'metadata-value', (k, a[k][0], v))
    c.nontrivial(list(df.columns), sorted(meta), unit, bool(out))
