"""C01: appended rows reach the file exactly once and in order"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random histories of appends and writes over 1-4 keys with random
column sets (12 types), run against the real writer and real files while the
memory size pandas reports is scaled so that the writer flushes never, at every
append, exactly at its threshold or irregularly. A case is non-trivial if rows
were read back; distinct by flush schedule, number of flushes and operations."""
ASSUMPTIONS = ["pandas and PyTables store what they are given",
               """strings of a column have one length (a pandas limit: later
               flushes cannot widen a string column)"""]
REQUIRE = ['rows_read_back', 'tables_read_back']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.core.io  # noqa


@group(quick=60, thorough=3000)
def histories(c):
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    from vlib import h5
    hist = h5.History(c)
    mean_bytes = 40 * 20
    what, scale = h5.scale_for(c.rng, mean_bytes)
    n_ops = int(c.rng.integers(1, 60 if c.thorough else 30))
    path = c.path('sub/x.h5') if c.rng.random() < 0.3 else c.path('x.h5')
    c.note(schedule=what, n_ops=n_ops, keys=hist.append_keys)
    with h5.FlushSchedule() as sched:
        sched.scale = scale
        with HDF5Writer(path) as writer:
            for _ in range(n_ops):
                if what != 'never' and c.rng.random() < 0.1:
                    sched.scale = h5.scale_for(c.rng, mean_bytes)[1]
                hist.step(writer)
        c.event('flushes', sched.flushes)
    c.note(trace=hist.trace, flushes=sched.flushes)
    with HDF5Reader(path) as reader:
        # every order of reading, and reading twice, gives the same
        for key in c.rng.permutation(hist.model.keys):
            h5.compare_frames(c, reader.read(str(key), force=True),
                              hist.model.table(str(key)), 'content', key)
        h5.check_tables(c, reader, hist.model)
        listed = set(reader.dataframe_keys)
        c.check(set(hist.model.keys) <= listed, 'table-missing',
                (hist.model.keys, listed))
    if hist.model.keys:
        c.nontrivial(what, sched.flushes, n_ops)


@group(quick=6, thorough=40)
def many_small(c):
    """Per-event appends as in the extraction, unique row ids"""
    import pandas as pd
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    from vlib import h5
    n_pix = int(c.rng.choice([1, 7, 64]))
    n_ev = int(c.rng.integers(50, 300))
    every = int(c.rng.integers(1, 40))
    path = c.path('x.h5')
    frame = pd.DataFrame(dict(uid=np.zeros(n_pix, dtype=np.int64),
                              v=np.zeros(n_pix, dtype=np.float32)))
    size = frame.memory_usage(index=True, deep=True).sum()
    with h5.FlushSchedule() as sched:
        # threshold reached exactly with the `every`th frame
        sched.scale = 0.5e9 / size / every * (1 + 1e-12)
        with HDF5Writer(path) as writer:
            for i in range(n_ev):
                uid = np.arange(n_pix) + i * n_pix
                writer.append(pd.DataFrame(dict(
                    uid=uid, v=(uid * 0.5).astype(np.float32))))
                if i % 3 == 0:
                    writer.append(pd.DataFrame(dict(
                        uid=[i], v=np.float32([i]))), key='mc')
    c.note(n_pix=n_pix, n_ev=n_ev, every=every, flushes=sched.flushes)
    c.event('flushes', sched.flushes)
    with HDF5Reader(path) as reader:
        df = reader.read('data', force=True)
        c.equal(df['uid'].values, np.arange(n_pix * n_ev), 'exactly-once')
        c.equal(df['v'].values, (np.arange(n_pix * n_ev) * 0.5)
                .astype(np.float32), 'values')
        mc = reader.read('mc', force=True)
        c.equal(mc['uid'].values, np.arange(0, n_ev, 3), 'exactly-once')
        c.event('rows_read_back', len(df) + len(mc))
        c.event('tables_read_back', 2)
    c.nontrivial(n_pix, n_ev, every)


@group(quick=0, thorough=2)
def real_threshold(c):
    """More than 0.5 GB of real rows cross the flush threshold by themselves"""
    import pandas as pd
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    from vlib import h5
    n_rows = 2 ** 20
    n_frames = 45
    path = c.path('x.h5')
    with h5.FlushSchedule() as sched:
        with HDF5Writer(path) as writer:
            for i in range(n_frames):
                uid = np.arange(n_rows) + i * n_rows
                writer.append(pd.DataFrame(dict(
                    uid=uid, v=np.zeros(n_rows), w=np.ones(n_rows))))
    c.event('flushes', sched.flushes)
    c.check(sched.rows == n_rows * n_frames, 'rows-flushed', sched.rows)
    with HDF5Reader(path) as reader:
        n = 0
        for df in reader.iterate_over_chunks('data', 3 * n_rows + 1):
            c.equal(df['uid'].values, n + np.arange(len(df)), 'exactly-once')
            n += len(df)
        c.check(n == n_rows * n_frames, 'rows', n)
        c.event('rows_read_back', n)
        c.event('tables_read_back')
    c.note(rows=n, flushes=sched.flushes)
    c.nontrivial('real')


@group(quick=15, thorough=400)
def together(c):
    """Several files written at the same time, with the same keys"""
    from CHECLabPy.core.io import HDF5Writer, HDF5Appender, HDF5Reader
    from vlib import h5
    n_files = int(c.rng.integers(2, 4))
    open_, hists = {}, []
    keys = ['data', 'mc', 'x1', 'x2']
    for i in range(n_files):
        hist = h5.History(c, keys=keys, empty=False)
        hists.append(hist)
        path = c.path('f{}.h5'.format(i))
        writer = HDF5Writer(path)
        if c.rng.random() < 0.3:
            hist.step(writer)
            writer.finish()
            hist.write_keys = []
            writer = HDF5Appender(path)
        open_[i] = writer
        if c.rng.random() < 0.3:
            # one file is started while others are being filled
            hists[0].step(open_[0])
    order = []
    for _ in range(int(c.rng.integers(6, 40))):
        i = int(c.rng.choice(list(open_)))
        order.append(i)
        hists[i].step(open_[i])
        if len(open_) > 1 and c.rng.random() < 0.1:
            open_.pop(i).finish()
    for i in c.rng.permutation(list(open_)):
        open_[int(i)].finish()
    readers = [HDF5Reader(c.path('f{}.h5'.format(i)))
               for i in range(n_files)]
    for i in c.rng.permutation(n_files):
        h5.check_tables(c, readers[i], hists[i].model)
        h5.check_metadata(c, readers[i], hists[i].model)
        listed = set(readers[i].dataframe_keys)
        c.check(listed == set(hists[i].model.keys), 'tables-of-other-file',
                (hists[i].model.keys, listed))
    for r in readers:
        r.store.close()
    c.event('files_together', n_files)
    c.note(order=order)
    c.nontrivial(n_files, tuple(order))
