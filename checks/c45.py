"""C45: data handed over in small parts never piles up in memory"""
import gc
import tracemalloc

import numpy as np
import pandas as pd

from vlib.engine import group

LEVEL = 'exploration'
RULE = """The real writer, appender and accumulators are fed real data of more
than their documented limits (0.5 GB per table, 1 GB per accumulator) in parts
of random sizes, tables interleaved; after each part the memory the process
holds (tracemalloc) is compared with the limit plus the part in hand, and for
the writers also the rows already in the store. The results are compared with
the totals afterwards. Loops over hundreds of events (averages, baselines,
reduction, readers) are watched for memory growing with the events. Distinct by sizes and number of parts."""
ASSUMPTIONS = ["""memory held by numpy and pandas is what tracemalloc sees
(allocations that bypass both are not counted)"""]
REQUIRE = ['parts', 'parts_beyond_limit', 'gigabytes', 'rows_in_store_early',
           'events_watched']
WORKERS = dict(quick=2, thorough=3)
CASE_LIMIT = 300


def setup():
    import CHECLabPy.core.io  # noqa
    import CHECLabPy.utils.resolutions  # noqa
    # everything pandas and tables import lazily is loaded before measuring
    import tables  # noqa


class Watch:
    """Memory held in excess of what was held at the start"""

    def __enter__(self):
        gc.collect()
        tracemalloc.start()
        self.base = tracemalloc.get_traced_memory()[0]
        self.held = 0
        return self

    def now(self):
        self.held = tracemalloc.get_traced_memory()[0] - self.base
        return self.held

    def __exit__(self, *args):
        tracemalloc.stop()


def frame(rng, n, start):
    """n rows that compress well, so that writing is quick"""
    return pd.DataFrame(dict(
        row=np.arange(start, start + n),
        x=np.full(n, float(rng.integers(100))),
        y=np.full(n, np.float32(rng.integers(100))),
        z=np.zeros(n, dtype=np.int64),
    ))


@group(quick=3, thorough=20)
def tables(c):
    from CHECLabPy.core.io import HDF5Writer, HDF5Appender, HDF5Reader
    rng = c.rng
    path = c.path('x.h5')
    appender = rng.random() < 0.5
    keys = ['data', 'other'][:int(rng.integers(1, 3))]
    small = ['mc', 'pointing', 'x', 'y'][:int(rng.integers(0, 5))]
    if appender:
        with HDF5Writer(path) as w:
            w.append(frame(rng, 10, 0), key='data')
    rows = {k: 10 if appender and k == 'data' else 0 for k in keys}
    largest, seen = 0, 0
    total = float(rng.uniform(0.6e9, 1.3e9)) * len(keys)
    n_parts = 0
    with Watch() as mem:
        with (HDF5Appender if appender else HDF5Writer)(path) as w:
            while total > 0:
                key = str(rng.choice(keys))
                for k in small:  # tables that never get large
                    w.append(frame(rng, 3, 0), key=k)
                n = int(rng.choice([10, 100_000, 1_000_000, 3_000_000],
                                   p=[0.1, 0.3, 0.4, 0.2]))
                df = frame(rng, n, rows[key])
                size = df.memory_usage(index=True).sum()
                kw = {} if key == 'data' and rng.random() < 0.5 else dict(
                    key=key)
                if rng.random() < 0.3:
                    kw['expectedrows'] = 10_000_000
                w.append(df, **kw)
                rows[key] += n
                del df
                total -= size
                n_parts += 1
                largest = max(largest, size)
                limit = (0.5e9 + largest) * len(keys) * 1.02 + 20e6
                held = mem.now()
                c.event('parts')
                c.event('parts_beyond_limit', sum(
                    r * 28 > 0.5e9 for r in rows.values()) > 0)
                if not c.check(held <= limit, 'held-by-writer',
                               (held, limit, rows)):
                    return
                for k in keys:
                    stored = (w.store.get_storer(k).nrows
                              if k in w.store else 0)
                    c.event('rows_in_store_early', stored)
                    c.check((rows[k] - stored) * 28 <= 0.5e9 + largest,
                            'not-stored', (k, rows[k], stored))
        c.event('gigabytes', sum(rows.values()) * 28 / 1e9)
        after = mem.now()
        c.check(after <= 0.05e9, 'held-after-closing', after)
    with HDF5Reader(path) as r:
        for k in keys:
            if rows[k]:
                c.check(r.get_n_rows(k) == rows[k], 'rows',
                        (k, r.get_n_rows(k), rows[k]))
                for a in rng.integers(0, rows[k], 3):
                    got = r.select_column(k, 'row', start=int(a),
                                          stop=int(a) + 1)
                    c.check(int(np.asarray(got)[0]) == a, 'row-order', k)
    import os
    os.remove(path)
    c.note(appender=appender, rows=rows, parts=n_parts)
    c.nontrivial(appender, n_parts, len(keys))


@group(quick=4, thorough=24)
def accumulators(c):
    from CHECLabPy.utils import resolutions as mod
    rng = c.rng
    name = ['ChargeResolution', 'ChargeStatistics', 'IntensityResolution',
            'IntensityStatistics'][(c.index + int(rng.integers(2)) * 2) % 4]
    stat = 'Statistics' in name
    acc = getattr(mod, name)() if stat else getattr(mod, name)(
        mc_true=bool(rng.random() < 0.5))
    n_pixels = int(rng.integers(1, 9))
    n = int(rng.integers(1_000_000, 3_000_000))
    levels = 1.0 + np.arange(int(rng.integers(1, 4)))
    pixel = np.arange(n) % n_pixels
    value = levels[np.arange(n) // n_pixels % levels.size]
    measured = value * 1.5
    per_part = n * 28  # pixel, true, sum and number
    n_parts = int(1.25e9 // per_part) + 1
    with Watch() as mem:
        for i in range(n_parts):
            acc.add(pixel, value, measured)
            c.event('parts')
            held = mem.now()
            done = (i + 1) * per_part
            c.event('parts_beyond_limit', done > 1e9)
            limit = (1e9 + 2 * n * 40) * 1.05
            if not c.check(held <= limit, 'held-by-' + name,
                           (held, limit, i)):
                return
        c.event('gigabytes', n_parts * per_part / 1e9)
        early = mem.held < 0.8 * n_parts * per_part
        c.check(early, 'nothing-reduced', (mem.held, n_parts * per_part))
        df_p, df_c = acc.finish()
    c.check(int(df_p['n'].sum()) == n * n_parts, 'entries-per-pixel',
            (int(df_p['n'].sum()), n * n_parts))
    c.check(int(df_c['n'].sum()) == n * n_parts, 'entries-of-camera')
    if stat:
        c.close(df_c['mean'], levels * 1.5, 'mean', 1e-6)
    c.note(name=name, n=n, parts=n_parts, pixels=n_pixels)
    c.nontrivial(name, n, n_parts)


class Stream:
    """Waveforms generated as they are asked for, watching the memory"""

    def __init__(self, c, n_events, n_pixels, n_samples, mem):
        from CHECLabPy.core.io.waveform import Waveform
        self.cls, self.mem, self.c = Waveform, mem, c
        self.n_events, self.n_pixels = n_events, n_pixels
        self.n_samples = n_samples
        self.base = c.rng.normal(
            100, 1, (n_pixels, n_samples)).astype(np.float32)
        self.base[:, n_samples // 2] += 50
        self.seen = []

    def __len__(self):
        return self.n_events

    def __iter__(self):
        for i in range(self.n_events):
            yield self[i]

    def __getitem__(self, i):
        self.seen.append(self.mem.now())
        return self.cls(self.base + i % 7, iev=i, is_r1=True)


def check_growth(c, seen, size, what):
    """After the start nothing more is held than at the start"""
    seen = np.asarray(seen[60:])
    c.event('events_watched', seen.size)
    grown = seen.max() - seen[:5].min()
    # a tenth of the events held would be noticed
    c.check(grown < size * seen.size / 10, 'held-by-' + what,
            lambda: (what, int(grown), size * seen.size))


@group(quick=6, thorough=60)
def streams(c):
    """Loops over the events of a file do not keep the events"""
    from CHECLabPy.core.chain import WaveformReducerChain
    from CHECLabPy.utils import waveform as mod
    from vlib import reduce
    rng = c.rng
    what = str(rng.choice(['average', 'average_pixel', 'dead', 'subtractor',
                           'chain', 'reader'])) if c.index >= 6 else [
        'average', 'average_pixel', 'dead', 'subtractor', 'chain',
        'reader'][c.index]
    n_events = int(rng.integers(300, 500))
    n_pixels, n_samples = 64, 128
    size = n_pixels * n_samples * 4
    if what == 'reader':
        from CHECLabPy.core.io import ReaderR1
        from vlib import files
        run = files.random_run(rng, 200, camera='1.1.0', n_modules=1)
        path = c.path('Run1_r1.tio')
        files.write_tio(path, run)
        reader = ReaderR1(path)
        with Watch() as mem:
            seen = []
            for _ in range(3):
                for wf in reader:
                    seen.append(mem.now())
                for i in range(0, reader.n_events, 3):
                    wf = reader[i]
                    seen.append(mem.now())
            del wf
    elif what == 'chain':
        name, mapping = reduce.layout(rng, full=0)
        n_pixels = len(mapping)
        size = n_pixels * n_samples * 4
        chain = WaveformReducerChain(
            n_pixels, n_samples, mapping=mapping,
            reference_pulse_path=reduce.PULSES[0])
        with Watch() as mem:
            src = Stream(c, n_events, n_pixels, n_samples, mem)
            for wf in src:
                chain.process(wf)
            seen = src.seen
    else:
        with Watch() as mem:
            src = Stream(c, n_events, n_pixels, n_samples, mem)
            if what == 'average':
                mod.get_average_wf(src, 60)
            elif what == 'average_pixel':
                mod.get_average_wf_per_pixel(src, 60)
            elif what == 'dead':
                mod.obtain_dead_pixel_list_r1(src, max_events=n_events)
            else:
                sub = mod.BaselineSubtractor(src)
                for wf in src:
                    sub.subtract(wf)
            seen = src.seen
    check_growth(c, seen, size, what)
    c.note(what=what, n_events=n_events)
    c.nontrivial(what, n_events)
