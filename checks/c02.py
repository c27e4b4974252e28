"""C02: contents list, byte counts, metadata and mapping of a file"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random histories of append, write, add_metadata and add_mapping under
all flush schedules; the closed file is read back and its contents list, byte
counts (bounded by the sizes of the arrays handed over), totals, version,
metadata (all values of the history, exact types) and mapping compared with a
model. Non-trivial: a table or metadata entry was listed; distinct by
operations and schedule."""
ASSUMPTIONS = ["pandas' memory accounting of numeric columns is their nbytes"]
REQUIRE = ['metadata_read_back', 'byte_counts']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 4


def setup():
    import CHECLabPy.core.io  # noqa


def check_bytes(c, reader, model, scale=1):
    from vlib import h5
    total = 0
    for key in model.keys:
        n = reader.get_n_bytes(key)
        total += n
        lo, hi = h5.byte_bounds(model, key)
        # `scale` applies if the size was taken from pandas' accounting
        c.check(lo <= n / scale <= hi or lo <= n <= hi, 'byte-count',
                lambda: '{}: {} not in {}..{} (scale {})'.format(
                    key, n, lo, hi, scale))
        c.event('byte_counts')
    return total


@group(quick=50, thorough=3000)
def histories(c):
    from CHECLabPy import __version__
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    from vlib import h5
    hist = h5.History(c, numeric=True, empty=False)
    scale = float(c.rng.choice([1, 1, 2.0 ** 20, 2.0 ** 17, 2.0 ** 30]))
    n_ops = int(c.rng.integers(1, 40))
    path = c.path('x.h5')
    with h5.FlushSchedule() as sched:
        sched.scale = scale
        with HDF5Writer(path) as writer:
            for _ in range(n_ops):
                hist.step(writer)
            if c.rng.random() < 0.5:
                for name in ('info', 'mapping'):
                    c.raises(ValueError, lambda: writer.add_metadata(
                        key='data', name=name, x=1), 'reserved-name', name)
                    c.event('reserved_names')
    model = hist.model
    c.note(scale=scale, n_ops=n_ops, flushes=sched.flushes, trace=hist.trace)
    c.event('flushes', sched.flushes)
    with HDF5Reader(path) as reader:
        c.equal(sorted(reader.dataframe_keys), sorted(model.keys),
                'contents-list', 'dataframe_keys')
        total = check_bytes(c, reader, model, scale)
        got = reader.get_metadata()['total_bytes']
        c.check(got == total, 'total-bytes', (got, total))
        c.check(reader.version == __version__, 'version', reader.version)
        h5.check_metadata(c, reader, model)
        h5.check_mapping(c, reader, model)
        for key in model.metadata:
            c.check(key in reader.metadata_keys, 'metadata-listed', key)
            for name in model.metadata[key]:
                c.check(name in reader.metadata_keys.get(key, []),
                        'metadata-listed', (key, name))
        for key, names in reader.metadata_keys.items():
            known = set(model.metadata.get(key, {}))
            if key in model.keys or key == 'data':
                known.add('metadata')
            c.check(set(names) <= known, 'metadata-invented', (key, names))
        if model.mapping is None:
            c.raises(KeyError, reader.get_mapping, 'no-mapping')
    c.nontrivial(n_ops, scale, len(model.keys), sched.flushes)


@group(quick=20, thorough=400)
def overwriting(c):
    """Long histories on few metadata entries: the latest value wins"""
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    from vlib import h5
    path = c.path('x.h5')
    model = h5.Model()
    n = int(c.rng.integers(5, 60))
    use_finish = c.rng.random() < 0.3
    writer = HDF5Writer(path)
    for i in range(n):
        key = str(c.rng.choice(['data', 'k1']))
        name = str(c.rng.choice(['metadata', 'config']))
        values = {str(c.rng.choice(['a', 'b', 'c'])): i,
                  str(c.rng.choice(['d', 'e'])): [i] * int(c.rng.integers(3))}
        writer.add_metadata(key=key, name=name, **values)
        model.add_metadata(key, name, values)
        # the caller's objects are free to change... only by rebinding
    if use_finish:
        writer.finish()
    else:
        writer.__exit__(None, None, None)
    with HDF5Reader(path) as reader:
        h5.check_metadata(c, reader, model)
        c.check(list(reader.dataframe_keys) == [], 'contents-list',
                reader.dataframe_keys)
    c.note(n=n)
    c.nontrivial(n, sorted(model.metadata))


@group(quick=4, thorough=40)
def camera_mapping(c):
    import pandas as pd
    from CHECLabPy.core.io import HDF5Writer, HDF5Reader
    from vlib import h5, camera
    name = str(c.rng.choice(['module', 'quad', 'nine', 'checs']))
    mapping = camera.mapping_of(name)
    order = c.rng.permutation(len(mapping))
    if c.rng.random() < 0.5:
        mapping = camera.with_metadata(
            mapping.iloc[order].reset_index(drop=True),
            dict(mapping.metadata, extra=[1, 2]))
    path = c.path('x.h5')
    with HDF5Writer(path) as writer:
        if c.rng.random() < 0.5:
            writer.add_mapping(camera.mapping_of('module'))
        writer.add_mapping(mapping)
        writer.append(pd.DataFrame(dict(x=np.arange(4))))
    with HDF5Reader(path) as reader:
        model = h5.Model()
        model.mapping = mapping
        h5.check_mapping(c, reader, model)
        c.check(reader.dataframe_keys == ['data'], 'contents-list',
                reader.dataframe_keys)
        c.check('mapping' not in reader.metadata_keys, 'mapping-listed')
    c.note(name=name)
    c.event('mappings')
    c.nontrivial(name, c.index)
