"""C05: partial reads agree with reading the entire table"""
import os

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random tables (several flushes) are read entirely and then by chunks
of random sizes (1, divisors, larger than the table, default), row ranges,
column subsets and single columns; each result must be the corresponding part.
Files whose recorded size is set around the 2 GB and 8 GB limits exercise the
default chunk size and the read guard; files of other versions and missing
names exercise the warnings and errors. Distinct by rows, chunk size, kind."""
ASSUMPTIONS = ["tables are appended ones (the format that can be selected)"]
REQUIRE = ['wide_tables', 'partial_reads', 'chunks', 'guards', 'errors']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.core.io  # noqa


def make(c, n_rows=None, numeric=False, meta=None):
    from CHECLabPy.core.io import HDF5Writer
    from vlib import h5
    path = c.path('x.h5')
    schema = h5.random_schema(c.rng, numeric)
    if len(schema) == 1:
        schema.append(('second', 'float64'))
    if c.rng.random() < 0.1:
        c.event('wide_tables')
        n_rows = n_rows or int(c.rng.integers(1, 80))
        schema += [('wide_{}'.format(i), 'float32')
                   for i in range(int(c.rng.integers(30, 70)))]
    frames = []
    n_rows = int(c.rng.integers(1, 400)) if n_rows is None else n_rows
    with h5.FlushSchedule() as sched:
        sched.scale = h5.scale_for(c.rng, 800)[1]
        with HDF5Writer(path) as w:
            left = n_rows
            while left:
                n = int(min(left, c.rng.integers(1, 100)))
                frames.append(h5.random_frame(c.rng, schema, n,
                                              n_rows - left))
                w.append(frames[-1], key='tab')
                left -= n
    # true sizes: the schedule scaled the recorded ones
    set_n_bytes(path, 'tab', int(h5.data_bytes(
        __import__('pandas').concat(frames)) if numeric else 50 * n_rows))
    import pandas as pd
    return path, pd.concat(frames, ignore_index=True), schema


def set_n_bytes(path, key, n):
    import pandas as pd
    with pd.HDFStore(path, 'r+') as store:
        attrs = store.get_storer(key).attrs
        attrs.metadata = dict(attrs.metadata, n_bytes=n)


def row_range(rng, n):
    """As in slices: open, from the end, beyond it, empty"""
    a = int(rng.integers(0, n + 1))
    b = int(rng.integers(a, n + 3))
    if rng.random() < 0.5:
        a = [None, 0, -1, a - n, -n, n, n + 5][int(rng.integers(7))]
        b = [None, n, b, b, b - n if b < n else None, n + 9, -1][
            int(rng.integers(7))]
        if a == b == 0:
            b = None
    return a, b


@group(quick=25, thorough=1000)
def partial(c):
    from CHECLabPy.core.io import HDF5Reader
    from vlib import h5
    path, want, schema = make(c)
    n = len(want)
    columns = [s[0] for s in schema]
    with HDF5Reader(path) as reader:
        h5.compare_frames(c, reader.read('tab'), want, 'whole')
        c.check(reader.get_n_rows('tab') == n, 'n-rows')
        c.check(list(reader.get_column_names('tab')) == columns,
                'column-names', reader.get_column_names('tab'))
        sizes = {1, n, n + 1, max(1, n - 1), int(c.rng.integers(1, n + 1))}
        if n > 150:
            sizes.discard(1)
        for size in sorted(sizes):
            rows = 0
            for df in reader.iterate_over_chunks('tab', size):
                stop = min(rows + size, n)
                h5.compare_frames(c, df, want.iloc[rows:stop], 'chunk',
                                  'rows {}:{}'.format(rows, stop))
                rows += len(df)
                c.event('chunks')
            c.check(rows == n, 'chunks-cover', (rows, n, size))
        for _ in range(4):
            a, b = row_range(c.rng, n)
            kw = dict(start=a, stop=b)
            if b is None and c.rng.random() < 0.5:
                del kw['stop']
            part = want.iloc[a:b]
            if c.rng.random() < 0.5:
                sub = [str(x) for x in c.rng.permutation(columns)[
                    :int(c.rng.integers(1, len(columns) + 1))]]
                kw['columns'] = sub
                part = part[sub]
                got = reader.select('tab', **kw)
                c.check(sorted(got.columns) == sorted(sub), 'select-columns')
                got = got[sub]
            else:
                got = reader.select('tab', **kw)
            if len(part):
                h5.compare_frames(c, got, part, 'select', kw)
            else:
                c.check(len(got) == 0, 'select-rows', kw)
            c.event('partial_reads')
        sub = [str(x) for x in c.rng.permutation(columns)[
            :int(c.rng.integers(1, len(columns) + 1))]]
        if c.rng.random() < 0.25:  # a column asked for twice
            sub = sub + sub[:1]
        single = reader.select_columns('tab', sub)
        c.check(len(single) == len(sub), 'select-columns-number')
        for name, col in zip(sub, single):
            h5.compare_frames(c, col.to_frame(name), want[[name]], 'column')
            h5.compare_frames(c, reader.select_column('tab', name)
                              .to_frame(name), want[[name]], 'column')
            c.event('partial_reads', 2)
        a = int(c.rng.integers(0, n))
        b = int(c.rng.integers(a + 1, n + 1))
        single = reader.select_columns('tab', sub, start=a, stop=b)
        c.check(len(single) == len(sub), 'select-columns-number')
        for name, col in zip(sub, single):
            h5.compare_frames(c, col.to_frame(name),
                              want[[name]].iloc[a:b], 'columns-range')
        for _ in range(2):
            x, y = row_range(c.rng, n)
            part = want.iloc[x:y]
            for name, col in zip(sub, reader.select_columns(
                    'tab', sub, start=x, stop=y)):
                one = reader.select_column('tab', name, start=x, stop=y)
                c.check(len(col) == len(one) == len(part),
                        'columns-range-rows', (x, y, n, len(col), len(one)))
                if len(part) == len(col) == len(one) > 0:
                    h5.compare_frames(c, col.to_frame(name), part[[name]],
                                      'columns-range', (x, y))
                    h5.compare_frames(c, one.to_frame(name), part[[name]],
                                      'column-range', (x, y))
                c.event('partial_reads', 2)
        col = reader.select_column('tab', sub[0], start=a, stop=b)
        h5.compare_frames(c, col.to_frame(sub[0]), want[[sub[0]]].iloc[a:b],
                          'column-range')
        chunk = list(reader.iterate_over_chunks(
            'tab', int(c.rng.integers(1, 200)), start=a, stop=b))
        import pandas as pd
        h5.compare_frames(c, pd.concat(chunk), want.iloc[a:b], 'chunk-range')
    c.note(n=n, schema=schema)
    c.nontrivial(n, len(schema))


@group(quick=12, thorough=300)
def default_chunk(c):
    """The default chunk is about 2 GB of the recorded size"""
    from CHECLabPy.core.io import HDF5Reader
    from vlib import h5
    n = int(c.rng.integers(20, 400))
    path, want, _ = make(c, n)
    total = float(c.rng.choice([1e6, 1.9e9, 2.1e9, 3e9, 7.9e9, 2e10, 1e11]))
    if total / n > 0.9e9:
        total = n * 0.5e9
    set_n_bytes(path, 'tab', int(total))
    per_row = total / n
    import pandas as pd
    with HDF5Reader(path) as reader:
        chunks = list(reader.iterate_over_chunks('tab'))
        h5.compare_frames(c, pd.concat(chunks), want, 'chunks')
        c.event('chunks', len(chunks))
        big = max(map(len, chunks)) * per_row
        c.check(big <= 2.2e9 + per_row, 'chunk-too-large', (big, per_row))
        for df in chunks[:-1]:
            c.check(len(df) * per_row >= 1.8e9 - per_row,
                    'chunk-too-small', (len(df) * per_row, per_row))
    c.note(n=n, total=total, n_chunks=len(chunks))
    c.nontrivial(n, total, len(chunks))


@group(quick=12, thorough=200)
def size_guard(c):
    from CHECLabPy.core.io import HDF5Reader
    from vlib import h5
    path, want, _ = make(c, int(c.rng.integers(1, 50)))
    total = int(c.rng.choice([10, 7_999_999_000, 8_000_000_000,
                              8_000_001_000, 20_000_000_000,
                              8_100_000_000, 7_900_000_000]))
    set_n_bytes(path, 'tab', total)
    with HDF5Reader(path) as reader:
        c.check(reader.get_n_bytes('tab') == total, 'n-bytes')
        with h5.collect_warnings() as w:
            try:
                h5.compare_frames(c, reader.read('tab'), want, 'read')
                refused = False
            except MemoryError:
                refused = True
        c.check(refused == (total > 8e9), 'guard', (refused, total))
        with h5.collect_warnings() as w:
            h5.compare_frames(c, reader.read('tab', force=True), want,
                              'forced')
        big = [x for x in w if '8GB' in str(x.message)
               or 'larger' in str(x.message)]
        c.check(bool(big) == (total > 8e9), 'guard-warning',
                (len(big), total))
        c.event('guards')
    c.note(total=total)
    c.nontrivial(total, len(want))


@group(quick=10, thorough=100)
def errors(c):
    from CHECLabPy.core.io import HDF5Reader
    path, want, _ = make(c, 5)
    missing = c.path('missing_{}.h5'.format(c.index))
    e = c.raises(FileNotFoundError, lambda: HDF5Reader(missing), 'no-file')
    c.check(e is None or os.path.basename(missing) in str(e), 'no-file-name')
    c.check(not os.path.exists(missing), 'file-created')
    with HDF5Reader(path) as reader:
        name = str(c.rng.choice(['nothing', 'tab2', 'ta', 'data']))
        e = c.raises(KeyError, lambda: reader.read(name), 'no-table', name)
        c.check(e is None or name in str(e), 'no-table-name', repr(e))
        name = str(c.rng.choice(['nothing', 'tab2', 'ta']))
        e = c.raises(KeyError, lambda: reader.get_metadata(name),
                     'no-metadata', name)
        c.check(e is None or name in str(e), 'no-metadata-key', repr(e))
        e = c.raises(KeyError, lambda: reader.get_metadata('tab', 'confi'),
                     'no-metadata', name)
        c.check(e is None or 'confi' in str(e), 'no-metadata-name', repr(e))
        c.raises(KeyError, lambda: reader.get_n_bytes(name), 'no-bytes')
        c.raises(KeyError, reader.get_mapping, 'no-mapping')
    c.event('errors', 6)
    c.nontrivial(name, c.index)


@group(quick=32, thorough=160)
def versions(c):
    import pandas as pd
    import CHECLabPy
    from CHECLabPy.core.io import HDF5Appender, HDF5Reader
    from vlib import h5
    path, want, _ = make(c, 3)
    major, minor = [int(x) for x in CHECLabPy.__version__.split('.')[:2]]
    version, warns = [
        ('{}.0.0'.format(major - 1), 'older'),
        ('{}.9.9'.format(major - 1), 'older'),
        ('{}.{}.0'.format(major, minor), None),
        ('{}.{}.7'.format(major, minor + 5), None),
        ('{}.0.1.dev3'.format(major), None),
        ('{}.0.0'.format(major + 1), 'newer'),
        ('{}.0.0'.format(major + 10), 'newer'),
        ('1.0.0', 'older' if major > 1 else None),
    ][c.index % 8]
    with pd.HDFStore(path, 'r+') as store:
        attrs = store.get_storer('data').attrs
        attrs.metadata = dict(attrs.metadata, version=version)
    # the appender gives the same warnings, and leaves its own version
    appender = c.rng.random() < 0.4
    with h5.collect_warnings() as w:
        with (HDF5Appender if appender else HDF5Reader)(path) as reader:
            c.check(reader.version == version, 'version', reader.version)
            h5.compare_frames(c, reader.read('tab'), want, 'read')
    text = ' '.join(str(x.message) for x in w
                    if issubclass(x.category, UserWarning))
    c.check(('older' in text) == (warns == 'older'), 'old-warning', text)
    c.check(('newer' in text) == (warns == 'newer'), 'new-warning', text)
    if appender:
        with HDF5Reader(path) as reader:
            c.check(reader.version == CHECLabPy.__version__,
                    'appender-version', reader.version)
            h5.compare_frames(c, reader.read('tab'), want, 'read')
        c.event('appended_versions')
    c.event('versions')
    c.note(appender=appender, version=version)
    c.nontrivial(version)
