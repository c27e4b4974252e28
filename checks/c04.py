"""C04: appender sessions preserve and extend a file"""
import os

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random series of 1-6 appender sessions after a writer session, with
random operations and flush schedules in each; after every session the whole
file (tables, metadata, mapping, byte counts, total) is compared with a model
of all operations in order, which is what one writer would have produced.
Distinct by number of sessions, operations and flushes."""
ASSUMPTIONS = ["""a table replaced as a whole by a later session is only
checked for its rows, not for metadata earlier sessions attached to it"""]
REQUIRE = ['sessions', 'rows_read_back', 'byte_counts']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.core.io  # noqa


def set_version(path, suffix):
    import pandas as pd
    from CHECLabPy import __version__
    with pd.HDFStore(path, mode='r+') as store:
        attrs = store.get_storer('data').attrs
        meta = dict(attrs.metadata)
        meta['version'] = __version__.split('.')[0] + suffix
        attrs.metadata = meta


def check_file(c, path, model, scale):
    from CHECLabPy import __version__
    from CHECLabPy.core.io import HDF5Reader
    from vlib import h5
    from checks.c02 import check_bytes
    with HDF5Reader(path) as reader:
        c.equal(sorted(reader.dataframe_keys), sorted(model.keys),
                'contents-list')
        h5.check_tables(c, reader, model)
        h5.check_metadata(c, reader, model)
        h5.check_mapping(c, reader, model)
        total = check_bytes(c, reader, model, scale)
        got = reader.get_metadata()['total_bytes']
        c.check(got == total, 'total-bytes', (got, total))
        c.check(reader.version == __version__, 'version', reader.version)


@group(quick=30, thorough=1500)
def sessions(c):
    from CHECLabPy.core.io import HDF5Writer, HDF5Appender
    from vlib import h5
    hist = h5.History(c, numeric=True, empty=False)
    written = hist.write_keys
    scale = float(c.rng.choice([1, 1, 2.0 ** 18, 2.0 ** 30]))
    n_sessions = int(c.rng.integers(1, 7))
    path = c.path('x.h5')
    ops = []
    with h5.FlushSchedule() as sched:
        sched.scale = scale
        for i in range(n_sessions + 1):
            # tables are written whole at most in the first session
            hist.write_keys = written if i == 0 else []
            n = int(c.rng.integers(0, 9))
            ops.append(n)
            cls = HDF5Writer if i == 0 else HDF5Appender
            with cls(path) as writer:
                for _ in range(n):
                    hist.step(writer)
            c.event('sessions')
            if i < n_sessions and c.rng.random() < 0.3:
                # the next session finds a file of another minor version
                set_version(path, str(c.rng.choice(['.0.0', '.999.1'])))
                c.event('other_versions')
                continue
            if c.rng.random() < 0.4 or i == n_sessions:
                check_file(c, path, hist.model, scale)
    c.event('flushes', sched.flushes)
    c.note(ops=ops, scale=scale, flushes=sched.flushes, trace=hist.trace)
    c.nontrivial(n_sessions, sum(ops), sched.flushes)


@group(quick=10, thorough=300)
def rewrite(c):
    """Tables written whole in later sessions: the last write wins"""
    from CHECLabPy.core.io import HDF5Writer, HDF5Appender, HDF5Reader
    from vlib import h5
    hist = h5.History(c, numeric=True, empty=False)
    path = c.path('x.h5')
    n_sessions = int(c.rng.integers(1, 5))
    if not hist.write_keys:
        hist.write_keys = ['w1']
        hist.schemas['w1'] = h5.random_schema(c.rng, True)
    for i in range(n_sessions + 1):
        with (HDF5Writer if i == 0 else HDF5Appender)(path) as writer:
            for _ in range(int(c.rng.integers(1, 5))):
                hist.step(writer, ('append', 'write', 'write'))
        c.event('sessions')
        with HDF5Reader(path) as reader:
            c.equal(sorted(reader.dataframe_keys), sorted(hist.model.keys),
                    'contents-list')
            h5.check_tables(c, reader, hist.model)
            from checks.c02 import check_bytes
            total = check_bytes(c, reader, hist.model)
            got = reader.get_metadata()['total_bytes']
            c.check(got == total, 'total-bytes', (got, total))
    c.note(trace=hist.trace)
    c.nontrivial(n_sessions, len(hist.trace))


@group(quick=3, thorough=20)
def reading_while_open(c):
    """An appender also reads what was in the file before its session"""
    from CHECLabPy.core.io import HDF5Writer, HDF5Appender
    from vlib import h5
    hist = h5.History(c, numeric=True, empty=False)
    path = c.path('x.h5')
    with HDF5Writer(path) as w:
        for _ in range(8):
            hist.step(w)
    with HDF5Appender(path) as a:
        h5.check_tables(c, a, hist.model)
        h5.check_metadata(c, a, hist.model)
        c.equal(sorted(a.dataframe_keys), sorted(hist.model.keys),
                'contents-list')
    check_file(c, path, hist.model, 1)
    c.event('sessions', 2)
    c.nontrivial(c.index)


@group(quick=3, thorough=10)
def missing_file(c):
    from CHECLabPy.core.io import HDF5Appender
    path = c.path(str(c.rng.choice(['x.h5', 'a b.h5', 'sub/y.h5'])))
    e = c.raises((OSError,), lambda: HDF5Appender(path), 'missing-file', path)
    c.check(isinstance(e, FileNotFoundError), 'missing-file-type', repr(e))
    c.check(not os.path.exists(path), 'file-created', path)
    c.event('missing_files')
    c.nontrivial(os.path.basename(path))
