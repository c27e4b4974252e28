"""Workloads and models for the HDF5 files of CHECLabPy.core.io"""
import contextlib
import warnings

import numpy as np
import pandas as pd

COLUMN_TYPES = [
    'int64', 'int32', 'int16', 'uint8', 'uint16', 'uint32', 'uint64',
    'float64', 'float32', 'bool', 'datetime64[ns]', 'str',
]
KEYS = ['data', 'mc', 'pointing', 'tab_2', 'zeta', 'grp/tab', 'mapping_2',
        'Data', 'pixel_mapping']


def random_schema(rng, numeric=False, n_max=6):
    kinds = [k for k in COLUMN_TYPES
             if not numeric or k not in ('str', 'datetime64[ns]')]
    n = int(rng.integers(1, n_max))
    names = rng.permutation(['x', 'iev', 'pixel', 'charge', 't_cpu', 'b2',
                             'Amp', 'long_column_name'])[:n]
    return [(str(c), str(rng.choice(kinds))) for c in names]


def random_column(rng, kind, n, start=0):
    if kind == 'str':
        return ['{:08d}'.format(start + i) for i in range(n)]
    if kind == 'bool':
        return rng.random(n) < 0.5
    if kind == 'datetime64[ns]':
        return (1500000000123456789
                + rng.integers(0, 10 ** 17, n)).astype('datetime64[ns]')
    if kind.startswith('float'):
        v = rng.normal(0, 10.0 ** rng.integers(-3, 6), n)
        bad = rng.random(n)
        v[bad < 0.03] = np.nan
        v[bad > 0.98] = np.inf
        return v.astype(kind)
    info = np.iinfo(kind)
    if rng.random() < 0.3:
        return rng.integers(info.min, info.max, n, dtype=kind, endpoint=True)
    return (start + np.arange(n)).astype(kind)


def random_frame(rng, schema, n, start=0):
    df = pd.DataFrame(
        {c: random_column(rng, kind, n, start) for c, kind in schema},
        columns=[c for c, _ in schema])
    what = rng.integers(3)
    if what == 1:
        df.index = rng.permutation(n) + 1000
    elif what == 2 and n:
        df.index = np.zeros(n, dtype=int)
    return df


class FlushSchedule:
    """Decides when the writer believes its 0.5 GB threshold is reached, by
    scaling the memory size pandas reports, and counts the real flushes."""

    def __init__(self):
        self.scale = 1
        self.flushes = 0
        self.rows = 0
        self.memory_calls = 0

    def __enter__(self):
        self._mem = pd.DataFrame.memory_usage
        self._app = pd.HDFStore.append
        sched = self

        def memory_usage(df, *args, **kwargs):
            sched.memory_calls += 1
            res = sched._mem(df, *args, **kwargs)
            return res if sched.scale == 1 else res * sched.scale

        def append(store, key, value, *args, **kwargs):
            sched.flushes += 1
            sched.rows += len(value)
            return sched._app(store, key, value, *args, **kwargs)

        pd.DataFrame.memory_usage = memory_usage
        pd.HDFStore.append = append
        return self

    def __exit__(self, *args):
        pd.DataFrame.memory_usage = self._mem
        pd.HDFStore.append = self._app


def scale_for(rng, frame_bytes):
    """never, at every append, exactly at the threshold, or in between"""
    what = rng.integers(4)
    if what == 0:
        return 'never', 1
    if what == 1:
        return 'every', 10 ** 9
    if what == 2:
        return 'exact', 0.5e9 / max(frame_bytes, 1)
    return 'some', 0.5e9 / max(frame_bytes, 1) / float(rng.uniform(1.5, 9))


def compare_frames(c, got, want, mech, what=''):
    """Same columns in order, same types, same values; index not compared"""
    if not c.check(list(got.columns) == list(want.columns), mech + '-columns',
                   lambda: '{}: columns {} instead of {}'.format(
                       what, list(got.columns), list(want.columns))):
        return False
    if not c.check(len(got) == len(want), mech + '-rows',
                   lambda: '{}: {} rows instead of {}'.format(
                       what, len(got), len(want))):
        return False
    ok = True
    for col in want.columns:
        g, w = got[col], want[col]
        ok &= c.check(g.dtype == w.dtype, mech + '-types',
                      lambda: '{} column {}: {} instead of {}'.format(
                          what, col, g.dtype, w.dtype))
        if w.dtype == object:
            ok &= c.check(list(g) == list(w), mech + '-values',
                          lambda: '{} column {}'.format(what, col))
        else:
            ok &= c.equal(g.values, w.values, mech + '-values',
                          '{} column {}'.format(what, col))
    return ok


def data_bytes(df):
    """In-memory size of the columns of a numeric table"""
    return int(sum(df[c].values.nbytes for c in df.columns))


def random_metadata(rng, n=None):
    pool = [
        ('n_events', lambda: int(rng.integers(0, 10 ** 9))),
        ('source', lambda: 'CHECLabPy' + 'x' * int(rng.integers(0, 3))),
        ('start_time', lambda: pd.Timestamp(
            int(rng.integers(10 ** 18, 2 * 10 ** 18)))),
        ('temp', lambda: float(rng.normal())),
        ('nothing', lambda: None),
        ('flag', lambda: bool(rng.integers(2))),
        ('array', lambda: rng.normal(size=int(rng.integers(0, 9)))),
        ('nested', lambda: {'a': [1, 2, int(rng.integers(9))],
                            'b': {'c': 'text'}}),
        ('empty', lambda: {}),
        ('text', lambda: 'sp\u00e9cial \u03bc "quotes"\n'),
        ('big', lambda: int(2) ** 70),
        ('tuple', lambda: (1, 'two', 3.0)),
    ]
    n = int(rng.integers(0, 5)) if n is None else n
    # few names in some cases, so that values are replaced by later ones, and
    # values that are empty or not there at all are replaced as well
    if rng.random() < 0.4:
        pool = pool[:4]
    idx = rng.permutation(len(pool))[:n]
    blank = [None, 0, '', False, {}, 0.0]
    return {pool[i][0]: blank[int(rng.integers(6))] if rng.random() < 0.2
            else pool[i][1]() for i in idx}


def same_value(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)
                and a.dtype == b.dtype and np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(
            same_value(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b


@contextlib.contextmanager
def collect_warnings():
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        yield w


class Model:
    """What a CHECLabPy HDF5 file must contain after a history of calls"""

    def __init__(self):
        self.appended = {}
        self.written = {}
        self.metadata = {}
        self.mapping = None

    def table(self, key):
        if key in self.appended:
            return pd.concat(self.appended[key], ignore_index=True)
        return self.written[key]

    @property
    def keys(self):
        return [k for k in {**self.appended, **self.written}
                if len(self.table(k))]

    def add_metadata(self, key, name, values):
        self.metadata.setdefault(key, {}).setdefault(name, {}).update(values)


class History:
    """Random operations applied to a writer and to the model"""

    def __init__(self, c, numeric=False, keys=None, empty=True):
        self.c, self.rng = c, c.rng
        rng = self.rng
        n = int(rng.integers(1, 5))
        keys = list(rng.permutation(keys or KEYS))
        self.append_keys = keys[:n]
        self.write_keys = [k for k in keys[n:] if '/' not in k][:2]
        self.schemas = {k: random_schema(rng, numeric) for k in keys}
        self.model = Model()
        self.empty = empty
        self.n_ops = 0
        self.numeric = numeric
        self.trace = []
        self.meta = []

    def step(self, writer, kinds=('append', 'write', 'metadata', 'mapping')):
        rng = self.rng
        p = dict(append=6, write=1, metadata=2, mapping=0.3)
        w = np.array([p[k] for k in kinds], float)
        kind = str(rng.choice(kinds, p=w / w.sum()))
        self.n_ops += 1
        if kind == 'write' and not self.write_keys:
            kind = 'append'
        if kind == 'append':
            key = str(rng.choice(self.append_keys))
            n = int(rng.choice([1, 2, 5, 17, 64]))
            if self.empty and self.model.appended.get(key) \
                    and rng.random() < 0.05:
                n = 0
            start = sum(map(len, self.model.appended.get(key, [])))
            df = random_frame(rng, self.schemas[key], n, start)
            self.trace.append(('append', key, n))
            kw = {}
            if rng.random() < 0.3:
                kw['expectedrows'] = int(rng.integers(1, 1000))
            if key != 'data' or rng.random() < 0.5:
                kw['key'] = key
            writer.append(df, **kw)
            # the model keeps its own copy: the caller's frame may be reused
            self.model.appended.setdefault(key, []).append(df.copy())
            self.c.event('rows_appended', n)
        elif kind == 'write':
            frames = {}
            for key in rng.permutation(self.write_keys)[
                    :int(rng.integers(1, 3))]:
                df = random_frame(rng, self.schemas[str(key)],
                                  int(rng.choice([1, 3, 40])))
                if rng.random() < 0.3:
                    df.index.name = 'number'
                frames[str(key)] = df
            self.trace.append(('write', {k: len(v)
                                         for k, v in frames.items()}))
            writer.write(**frames)
            self.model.written.update({k: v.copy()
                                       for k, v in frames.items()})
            self.c.event('tables_written', len(frames))
        elif kind == 'metadata':
            key = str(rng.choice(['data', 'mc', 'only_meta']
                                 + self.append_keys))
            if self.meta and rng.random() < 0.5:  # add to what is there
                key, name = self.meta[int(rng.integers(len(self.meta)))]
            else:
                name = str(rng.choice(['metadata', 'config', 'mcheader', 'sn',
                                       'dac', 'info_2', 'sipm_temp', 'SN', 'Config',
                                       'HVON']))
            self.meta.append((key, name))
            values = random_metadata(rng, int(rng.choice(
                [0, 1, 2, 3, 4], p=[.06, .24, .24, .23, .23])))
            if rng.random() < 0.06:  # e.g. one value per superpixel
                values.update({'TM{:02}_SP{:02}'.format(i // 16, i % 16):
                               int(rng.integers(256))
                               for i in range(int(rng.integers(20, 513)))})
            self.trace.append(('metadata', key, name, sorted(values)))
            if rng.random() < 0.3:
                key, name = 'data', 'metadata'
                writer.add_metadata(**values)
            else:
                writer.add_metadata(key=key, name=name, **values)
            self.model.add_metadata(key, name, values)
            self.c.event('metadata_entries', len(values))
        elif kind == 'mapping':
            from vlib import camera
            mapping = camera.mapping_of('module')
            self.trace.append(('mapping',))
            writer.add_mapping(mapping)
            self.model.mapping = mapping
            self.c.event('mappings')
        return kind


def check_tables(c, reader, model, mech='content'):
    for key in model.keys:
        got = reader.read(key, force=True)
        want = model.table(key)
        compare_frames(c, got, want, mech, key)
        if key not in model.appended:  # written whole: index included
            c.equal(got.index.values, want.index.values, mech + '-index', key)
            c.check(got.index.name == want.index.name, mech + '-index',
                    lambda: '{}: {!r} instead of {!r}'.format(
                        key, got.index.name, want.index.name))
        c.event('rows_read_back', len(got))
        c.event('tables_read_back')


def check_metadata(c, reader, model, mech='metadata'):
    for key, names in model.metadata.items():
        for name, values in names.items():
            got = reader.get_metadata(key, name)
            for k, v in values.items():
                c.check(k in got and same_value(got[k], v), mech,
                        lambda: '{}/{}/{}: {!r} instead of {!r}'.format(
                            key, name, k, got.get(k, 'missing'), v))
                c.event('metadata_read_back')
            extra = set(got) - set(values)
            if name == 'metadata':
                extra -= {'n_bytes', 'total_bytes', 'version'}
            c.check(not extra, mech + '-extra',
                    lambda: '{}/{}: unexpected {}'.format(key, name, extra))


def check_mapping(c, reader, model):
    if model.mapping is None:
        return
    got = reader.get_mapping()
    compare_frames(c, got, model.mapping, 'mapping', 'mapping')
    c.check(got.metadata == model.mapping.metadata, 'mapping-metadata',
            lambda: repr(got.metadata))
    c.check('mapping' not in reader.dataframe_keys, 'mapping-listed')


def byte_bounds(model, key):
    df = model.table(key)
    data = data_bytes(df)
    # index: 8 bytes per row if it is not a range, a fixed size per flush
    n = len(model.appended.get(key, [0]))
    return data, data + 8 * len(df) + 300 * (n + 2)
