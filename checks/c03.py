"""C03: an exception while writing loses nothing and is not swallowed"""
import os

import numpy as np

from vlib.engine import group

LEVEL = 'fault_enumeration'
RULE = """For each random history every point between two operations is used
once as the point where an exception leaves the writer's (or appender's)
context; the exception class varies (also KeyboardInterrupt, SystemExit and
generator exit). Monitors: the very exception object reaches the caller, the
file can be opened, everything handed over before is read back, nothing else
is in it, and no file handle of the process stays open. Frames that their
table cannot take (mixed types, other columns, a table written whole) are
appended at random points as well. Distinct by operation
count, crash point, exception and kind of session."""
ASSUMPTIONS = ["""faults are exceptions raised by user code inside the context;
a killed process or full disk is out of scope of the statement"""]
REQUIRE = ['crash_points', 'exceptions_delivered', 'rows_read_back',
           'unstorable_tables']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 3


class Boom(Exception):
    pass


EXCEPTIONS = [Boom, ValueError, KeyError, KeyboardInterrupt, SystemExit,
              StopIteration, MemoryError, GeneratorExit]


def setup():
    import CHECLabPy.core.io  # noqa


def open_handles(path):
    n = 0
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.path.realpath(os.readlink('/proc/self/fd/' + fd)) \
                    == os.path.realpath(path):
                n += 1
        except OSError:
            pass
    return n


class Replay:
    """The same history can be replayed up to any point"""

    def __init__(self, c, seed, kinds=None):
        from vlib import h5
        self.c = c
        saved = c.rng
        c.rng = np.random.default_rng(seed)
        self.hist = h5.History(c)
        self.rng = c.rng
        c.rng = saved

    def step(self, writer):
        self.hist.rng = self.rng
        return self.hist.step(writer)


def crash(c, make, replay, n_before, exc):
    error = exc('planted')
    caught = None
    try:
        with make() as writer:
            for _ in range(n_before):
                replay.step(writer)
            raise error
    except BaseException as e:
        caught = e
    c.event('crash_points')
    c.check(caught is error, 'exception-changed',
            lambda: '{!r} instead of {!r}'.format(caught, error))
    c.event('exceptions_delivered', caught is error)
    return caught


@group(quick=12, thorough=500)
def writer(c):
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    from vlib import h5
    seed = int(c.rng.integers(2 ** 31))
    n_ops = int(c.rng.integers(1, 12))
    what, scale = h5.scale_for(c.rng, 800)
    c.note(n_ops=n_ops, schedule=what)
    for point in range(n_ops + 1):
        path = c.path('w{}.h5'.format(point))
        exc = EXCEPTIONS[int(c.rng.integers(len(EXCEPTIONS)))]
        replay = Replay(c, seed)
        with h5.FlushSchedule() as sched:
            sched.scale = scale
            crash(c, lambda: HDF5Writer(path), replay, point, exc)
        c.event('flushes', sched.flushes)
        c.check(open_handles(path) == 0, 'file-left-open', path)
        with HDF5Reader(path) as reader:
            model = replay.hist.model
            h5.check_tables(c, reader, model)
            h5.check_metadata(c, reader, model)
            h5.check_mapping(c, reader, model)
            if not any(len(model.table(k)) == 0
                       for k in {**model.appended, **model.written}):
                c.equal(sorted(reader.dataframe_keys), sorted(model.keys),
                        'contents-list')
        c.nontrivial('writer', n_ops, point, exc.__name__, what)


@group(quick=8, thorough=300)
def appender(c):
    from CHECLabPy.core.io import HDF5Writer, HDF5Appender, HDF5Reader
    from vlib import h5
    seed = int(c.rng.integers(2 ** 31))
    n_first = int(c.rng.integers(1, 8))
    n_ops = int(c.rng.integers(1, 8))
    what, scale = h5.scale_for(c.rng, 800)
    c.note(n_first=n_first, n_ops=n_ops, schedule=what)
    for point in range(n_ops + 1):
        path = c.path('a{}.h5'.format(point))
        exc = EXCEPTIONS[int(c.rng.integers(len(EXCEPTIONS)))]
        replay = Replay(c, seed)
        # tables written whole replace what earlier sessions attached to them
        replay.hist.write_keys = []
        with HDF5Writer(path) as w:
            for _ in range(n_first):
                replay.step(w)
        with h5.FlushSchedule() as sched:
            sched.scale = scale
            crash(c, lambda: HDF5Appender(path), replay, point, exc)
        c.event('flushes', sched.flushes)
        c.check(open_handles(path) == 0, 'file-left-open', path)
        with HDF5Reader(path) as reader:
            h5.check_tables(c, reader, replay.hist.model)
            h5.check_metadata(c, reader, replay.hist.model)
            h5.check_mapping(c, reader, replay.hist.model)
        c.nontrivial('appender', n_ops, point, exc.__name__, what)


@group(quick=4, thorough=60)
def inside_operation(c):
    """The exception comes out of an operation with unacceptable arguments:
    what was handed over before is kept"""
    import pandas as pd
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    from vlib import h5
    path = c.path('x.h5')
    n = int(c.rng.integers(1, 9))
    kind = str(c.rng.choice(['reserved', 'frame', 'write']))
    caught = None
    frames = []
    try:
        with HDF5Writer(path) as w:
            for i in range(n):
                df = pd.DataFrame(dict(uid=np.arange(3) + 3 * i))
                w.append(df)
                frames.append(df)
            w.add_metadata(n_frames=n)
            if kind == 'reserved':
                w.add_metadata(name='info', x=1)
            elif kind == 'frame':
                w.append(None)
            else:
                w.write(table=object())
    except Exception as e:
        caught = e
    c.note(kind=kind, n=n, error=repr(caught)[:80])
    c.event('crash_points')
    c.check(caught is not None, 'exception-swallowed', kind)
    c.event('exceptions_delivered', caught is not None)
    if kind == 'reserved':
        c.check(isinstance(caught, ValueError), 'exception-changed', caught)
        c.check(open_handles(path) == 0, 'file-left-open', path)
        with HDF5Reader(path) as reader:
            model = h5.Model()
            model.appended['data'] = frames
            model.add_metadata('data', 'metadata', dict(n_frames=n))
            h5.check_tables(c, reader, model)
            h5.check_metadata(c, reader, model)
    c.nontrivial(kind, n)


@group(quick=60, thorough=1500)
def unstorable(c):
    """Rows of one table cannot be stored: an error is raised, and the other
    tables, the metadata and what the table contained before are kept"""
    import pandas as pd
    from CHECLabPy.core.io import HDF5Writer, HDF5Appender, HDF5Reader
    from vlib import h5
    rng = c.rng
    path = c.path('u.h5')
    hist = h5.History(c)
    hist.write_keys = []
    kind = str(rng.choice(['mixed', 'whole', 'columns', 'objects']))
    appender = kind == 'columns' or bool(rng.random() < 0.5)
    odd = str(rng.choice(['a_odd', 'odd', 'zz_odd']))
    n_first, n_ops = (int(x) for x in rng.integers(1, 9, 2))
    if not appender:
        n_first = 0
    before = after = None
    good = pd.DataFrame(dict(x=np.arange(5.) + 3, uid=np.arange(5)))
    n_good = int(rng.choice([0, 1, 3]))
    what, scale = h5.scale_for(rng, 800)
    at = int(rng.integers(n_ops + 1))
    boom = Boom('planted') if rng.random() < 0.3 else None
    early = kind == 'whole' and bool(rng.random() < 0.5)
    if appender:
        with HDF5Writer(path) as w:
            for _ in range(n_first):
                hist.step(w)
            if kind == 'columns':
                w.append(good, key=odd)
                before = good
            elif early:
                w.write(**{odd: good})
                before = good
    caught = None
    with h5.FlushSchedule() as sched:
        sched.scale = scale
        try:
            with (HDF5Appender if appender else HDF5Writer)(path) as w:
                if kind == 'whole' and before is None:
                    w.write(**{odd: good})
                    before = good
                for i in range(n_ops + 1):
                    if i == at:
                        for _ in range(n_good if kind != 'columns' else 0):
                            w.append(good.copy(), key=odd)
                        w.add_metadata(key=odd, name='config', at=at)
                        w.append(dict(
                            mixed=lambda: pd.DataFrame(
                                dict(x=[1.5, 'a'], uid=[1, 2])),
                            objects=lambda: pd.DataFrame(
                                dict(x=[{}, 1], uid=[1, 2])),
                            whole=lambda: good.copy(),
                            columns=lambda: pd.DataFrame(
                                dict(y=np.arange(3), uid=np.arange(3))),
                        )[kind](), key=odd)
                    if i < n_ops:
                        hist.step(w)
                if boom:
                    raise boom
        except BaseException as e:
            caught = e
    c.note(kind=kind, appender=appender, odd=odd, n_first=n_first, at=at,
           n_ops=n_ops, schedule=what, error=repr(caught)[:90],
           boom=boom is not None)
    c.event('crash_points')
    c.event('unstorable_tables')
    if not c.check(caught is not None, 'exception-swallowed', kind):
        return
    c.check(isinstance(caught, (Boom, TypeError, ValueError)),
            'exception-changed', repr(caught))
    c.event('exceptions_delivered')
    c.check(open_handles(path) == 0, 'file-left-open', path)
    with HDF5Reader(path) as reader:
        h5.check_tables(c, reader, hist.model)
        h5.check_metadata(c, reader, hist.model)
        h5.check_mapping(c, reader, hist.model)
        if before is not None:
            got = reader.read(odd, force=True)
            h5.compare_frames(c, got.iloc[:len(before)], before,
                              'earlier-rows', odd)
            c.check(len(got) == len(before), 'earlier-rows', odd)
    c.nontrivial(kind, appender, n_first > 3, n_ops, at, what)


@group(quick=6, thorough=60)
def unstorable_metadata(c):
    """Metadata that cannot be stored: an error is raised, the file is
    closed, and it opens again"""
    import pandas as pd
    from CHECLabPy.core.io import HDF5Writer, HDF5Appender
    path = c.path('m.h5')
    n = int(c.rng.integers(1, 9))
    appender = bool(c.rng.random() < 0.5)
    df = pd.DataFrame(dict(uid=np.arange(3 * n)))
    if appender:
        with HDF5Writer(path) as w:
            w.append(df.iloc[:1])
    caught = None
    try:
        with (HDF5Appender if appender else HDF5Writer)(path) as w:
            w.append(df.iloc[1:] if appender else df)
            w.add_metadata(function=lambda: n)
    except Exception as e:
        caught = e
    c.event('crash_points')
    c.check(caught is not None, 'exception-swallowed', 'metadata')
    c.event('exceptions_delivered', caught is not None)
    if not c.check(open_handles(path) == 0, 'file-left-open', path):
        return
    with pd.HDFStore(path, 'r') as store:
        c.equal(store['data']['uid'].values, df['uid'].values, 'rows')
    c.nontrivial('metadata', n, appender)
