"""C13: waveform reduction is pure"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Histories of events of many kinds (pulses, noise, flat, saturated,
edge pulses) are processed by chains with random sets of active columns, by
single reducers and by freshly built chains. A monitor hashes the input before
and after, snapshots every returned value and compares the snapshots after the
history, compares every value with that of a fresh chain with only this
reducer, and repeats an event with all unrelated pixels replaced. A reducer
defined at run time that changes the waveforms it was given takes any place in
the chain. Distinct by columns, settings and event kinds."""
ASSUMPTIONS = ["stand-ins for ctapipe's extraction functions",
               "values compared up to rounding (2e-5 relative)"]
REQUIRE = ['values_after_history', 'columns_compared', 'inputs_hashed',
           'pixels_replaced', 'buffers_overwritten', 'aged_compared',
           'awkward_inputs', 'worked_in_place']
WORKERS = dict(quick=6, thorough=8)


def setup():
    import CHECLabPy.core.chain  # noqa


def settings(c):
    kw = {}
    if c.rng.random() < 0.5:
        kw['window_size'] = int(c.rng.integers(2, 20))
        kw['window_shift'] = int(c.rng.integers(0, 10))
    if c.rng.random() < 0.2:
        kw['t_extract'] = int(c.rng.integers(12, 110))
    return kw


def columns(c, n_pixels):
    from vlib import reduce
    pool = sorted(reduce.ALL - reduce.NNLS
                  - (set() if n_pixels == 2048 else {'flasher_unit'}))
    if n_pixels == 64 and c.rng.random() < 0.15:
        pool = sorted(reduce.ALL - {'flasher_unit'})
    n = int(c.rng.choice([1, 2, 5, len(pool)]))
    return [str(x) for x in c.rng.permutation(pool)[:n]]


def snapshot(d):
    return {k: np.array(v, copy=True) for k, v in d.items()}


def run(c, chain, wf, on, what):
    """Process with the input monitored"""
    before = wf.tobytes()
    d = chain.process(wf)
    c.event('inputs_hashed')
    c.check(wf.tobytes() == before, 'input-changed', what)
    c.check(set(d) == set(on), 'columns-returned',
            lambda: (what, set(d) ^ set(on)))
    return d


@group(quick=26, thorough=900)
def histories(c):
    """The same event gives the same values in any chain and history"""
    from CHECLabPy.core.chain import WaveformReducerChain
    from vlib import reduce
    name, mapping = reduce.layout(c.rng)
    n = len(mapping)
    on = columns(c, n)
    kw = settings(c)
    pulse = reduce.PULSES[int(c.rng.integers(2))]
    base = dict(reference_pulse_path=pulse, mapping=mapping, **kw)
    off = {k: False for k in reduce.DEFAULTS if k not in on}
    off.update({k: False for k in reduce.OTHERS if k not in on})
    args = {**off, **{k: True for k in on}}
    chain = WaveformReducerChain(n, 128, **args, **base)
    dtype = c.rng.choice([np.float32, np.float64])
    n_events = int(c.rng.integers(2, 4 if n == 2048 else 7))
    wfs, kinds = zip(*[reduce.event(c.rng, n, dtype=dtype)
                       for _ in range(n_events)])
    c.note(layout=name, columns=on, settings=kw, kinds=kinds)
    order = list(c.rng.permutation(n_events))
    order += [int(c.rng.integers(n_events)) for _ in range(2)]
    reuse = c.rng.random() < 0.5
    buffer = np.empty_like(wfs[0])
    results = []
    for i in order:
        if reuse:  # the caller reuses one buffer for all events
            buffer[:] = wfs[i]
            d = run(c, chain, buffer, on, 'buffer')
            results.append((i, d, snapshot(d)))
            buffer[:] = np.nan
            c.event('buffers_overwritten')
        else:
            d = run(c, chain, wfs[i].copy(), on, 'copy')
            results.append((i, d, snapshot(d)))
    for i, d, snap in results:
        for k in d:
            c.event('values_after_history')
            c.check(reduce.same(d[k], snap[k], 0), 'value-changed-later-' + k,
                    lambda: (k, i, d[k], snap[k]))
    # Fresh chains of a single column, in another order of the events
    some = [str(x) for x in c.rng.permutation(on)[:6]]
    for col in some:
        only = {k: False for k in reduce.ALL}
        only[col] = True
        fresh = WaveformReducerChain(n, 128, **only, **base)
        for i, _, snap in sorted(results, key=lambda r: -r[0])[:3]:
            got = run(c, fresh, wfs[i].copy(), [col], col)[col]
            c.event('columns_compared')
            c.check(reduce.same(got, snap[col], 2e-5,
                                np.abs(wfs[i]).max()),
                    'value-' + col, lambda: (col, kinds[i], got, snap[col]))
    # A repeated event after the whole history
    first = {}
    for i, _, snap in results:
        if i in first:
            for k in snap:
                c.check(reduce.same(snap[k], first[i][k], 2e-5,
                                    np.abs(wfs[i]).max()),
                        'value-depends-on-history-' + k, (k, kinds[i]))
        first.setdefault(i, snap)
    c.nontrivial(name, len(on), kw, kinds)


@group(quick=24, thorough=800)
def aged(c):
    """A reducer with a past gives the values of a new one, for every kind of
    event after every other kind"""
    from vlib import reduce, camera
    cls = reduce.reducers()
    r = cls[c.index % len(cls)]
    cols = list(r.columns)
    nnls = bool(set(cols) & reduce.NNLS)
    n_pix = 2048 if 'flasher_unit' in cols else 64
    mapping = camera.mapping_of('checs' if n_pix == 2048 else 'module')
    kw = {} if nnls else settings(c)
    kw.pop('t_extract', None)
    base = dict(reference_pulse_path=reduce.PULSES[int(c.rng.integers(2))],
                mapping=mapping, **kw, **{k: True for k in cols})
    kinds = [str(k) for k in c.rng.permutation(reduce.KINDS)]
    if nnls:
        kinds = kinds[:3]
    kinds = kinds + ['rolled', 'permuted'] + kinds[:2] + ['rolled']
    old = r(n_pix, 128, **base)
    old.process(reduce.event(c.rng, n_pix, kind='pulse')[0])
    c.note(reducer=r.__name__, kinds=kinds, settings=kw)
    for kind in kinds:
        if kind == 'rolled':  # the same samples in each pixel
            wf = np.roll(np.round(wf), int(c.rng.integers(1, 127)), axis=1)
        elif kind == 'permuted':  # ... in other pixels and places
            wf = c.rng.permutation(np.round(wf).ravel()).reshape(wf.shape)
        else:
            wf, _ = reduce.event(c.rng, n_pix, kind=kind)
            if c.rng.random() < 0.5:
                wf = np.round(wf)
        got = run(c, old, wf.copy(), cols, r.__name__)
        want = run(c, r(n_pix, 128, **base), wf.copy(), cols, r.__name__)
        for k in cols:
            c.event('aged_compared')
            c.check(reduce.same(got[k], want[k], 0),
                    'value-depends-on-past-' + k, (kind, got[k], want[k]))
    c.nontrivial(r.__name__, kinds, kw)


@group(quick=14, thorough=400)
def alone(c):
    """A reducer used directly gives the values it gives in the chain"""
    from CHECLabPy.core.chain import WaveformReducerChain
    from vlib import reduce
    cls = reduce.reducers()
    r = cls[c.index % len(cls)]
    cols = list(r.columns)
    n_pix = 2048 if 'flasher_unit' in cols else (
        64 if set(cols) & reduce.NNLS else 256)
    from vlib import camera
    mapping = camera.mapping_of(
        {2048: 'checs', 64: 'module', 256: 'quad'}[n_pix])
    kw = settings(c)
    if set(cols) & reduce.NNLS:
        kw = {}
    on = sorted(set(str(x) for x in c.rng.choice(cols, len(cols))))
    base = dict(reference_pulse_path=reduce.PULSES[0], mapping=mapping, **kw)
    # Columns of other reducers, names of settings shared with columns
    others = {k: bool(c.rng.random() < 0.3)
              for k in reduce.ALL - set(cols) - reduce.NNLS
              - (set() if n_pix == 2048 else {'flasher_unit'})}
    mine = {k: k in on for k in cols}
    off = {k: False for k in reduce.ALL}
    chain = WaveformReducerChain(n_pix, 128, **{**off, **others, **mine},
                                 **base)
    single = r(n_pix, 128, **mine, **base)
    quiet = r(n_pix, 128, **others, **mine, **base)
    active = on + [k for k in others if others[k]]
    c.note(reducer=r.__name__, on=on, others=[k for k in others if others[k]],
           settings=kw)
    for _ in range(3):
        wf, kind = reduce.event(c.rng, n_pix)
        got = run(c, chain, wf.copy(), active, 'chain')
        got = {k: v for k, v in snapshot(got).items() if k in on}
        for label, obj in (('alone', single), ('with-other-switches', quiet)):
            d = run(c, obj, wf.copy(), on, r.__name__)
            for k in on:
                c.event('columns_compared')
                c.check(reduce.same(d[k], got[k], 2e-5, np.abs(wf).max()),
                        'chain-{}-{}'.format(label, k), (kind, d[k], got[k]))
        c.nontrivial(r.__name__, kind, len(on), len(active))


@group(quick=24, thorough=400)
def user_defined(c):
    """A reducer of the user that works in place on the waveforms it got"""
    import gc
    from CHECLabPy.core.chain import WaveformReducerChain
    from CHECLabPy.core.reducer import WaveformReducer, column
    from vlib import camera, reduce
    rng = c.rng
    tag = '_{}_{}_{}'.format(c.seed, c.tier[0], c.index)
    name = 'worker' + tag
    what = str(rng.choice(['zero', 'sort', 'scale', 'pixels']))

    def work(self):
        """Changes its waveforms"""
        wf = self.waveforms
        if what == 'zero':
            wf[:] = 0
        elif what == 'sort':
            wf.sort(1)
        elif what == 'scale':
            wf *= 7
        else:
            wf[::2] = -3
        return wf.sum(1)
    work.__name__ = name
    work.__qualname__ = 'Worker{}.{}'.format(tag, name)
    cls = type(WaveformReducer)('Worker' + tag, (WaveformReducer,), {
        '__doc__': 'Works in place', name: column(work)})
    n = 64
    on = [k for k in columns(c, n) if k not in reduce.NNLS]
    off = {k: False for k in reduce.ALL}
    kw = dict(reference_pulse_path=reduce.PULSES[int(rng.integers(2))],
              mapping=camera.mapping_of('module'), **settings(c))
    args = {**off, **{k: True for k in on}}
    chain = WaveformReducerChain(n, 128, **args, **kw)
    both = WaveformReducerChain(n, 128, **args, **{name: True}, **kw)
    single = cls(n, 128)
    # whichever place in the chain it has
    both.chain = [both.chain[int(i)] for i in rng.permutation(
        len(both.chain))]
    dtype = [np.float32, np.float64][int(rng.integers(2))]
    c.note(what=what, columns=on)
    for _ in range(2):
        wf, kind = reduce.event(rng, n, dtype=dtype)
        want = snapshot(run(c, chain, wf.copy(), on, kind))
        got = run(c, both, wf, on + [name], what)
        run(c, single, wf, [name], what)
        c.event('worked_in_place')
        for k in on:
            c.check(reduce.same(got[k], want[k], 2e-5, np.abs(wf).max()),
                    'changed-by-other-' + k, (what, got[k], want[k]))
    del chain, both, single, cls
    gc.collect()
    c.nontrivial(what, sorted(on), dtype.__name__)


@group(quick=12, thorough=400)
def locality(c):
    """Replacing unrelated pixels does not change a pixel's columns"""
    from CHECLabPy.core.chain import WaveformReducerChain
    from vlib import reduce, camera
    name = str(c.rng.choice(['quad', 'module']))
    mapping = camera.mapping_of(name)
    n = len(mapping)
    nnls = n == 64 and c.rng.random() < 0.3
    on = reduce.SINGLE | reduce.NEIGHBOUR | reduce.SUPER
    if not nnls:
        on = on - reduce.NNLS
    kw = settings(c)
    kw.pop('t_extract', None)
    args = {k: k in on for k in reduce.ALL}
    chain = WaveformReducerChain(
        n, 128, reference_pulse_path=reduce.PULSES[0], mapping=mapping,
        **args, **kw)
    wf, kind = reduce.event(c.rng, n)
    ref = snapshot(run(c, chain, wf.copy(), on, 'first'))
    nbr = camera.neighbours(mapping)
    c.note(layout=name, kind=kind, settings=kw)
    for _ in range(3):
        keep = set(int(p) for p in c.rng.integers(0, n, 3))
        need = {
            'single': (reduce.SINGLE & on, keep),
            'neighbour': (reduce.NEIGHBOUR,
                          keep | {int(q) for p in keep
                                  for q in np.flatnonzero(nbr[p])}),
            'super': (reduce.SUPER, {4 * (p // 4) + k for p in keep
                                     for k in range(4)}),
        }
        for label, (cols, preserved) in need.items():
            other, _ = reduce.event(c.rng, n)
            wf2 = other * float(c.rng.choice([1, 30, -5]))
            wf2 += c.rng.normal(0, 1, wf2.shape).astype(wf2.dtype)
            idx = sorted(preserved)
            wf2[idx] = wf[idx]
            got = run(c, chain, wf2, on, 'replaced')
            p = sorted(keep)
            for k in cols:
                c.event('pixels_replaced', n - len(idx))
                c.check(reduce.same(got[k][p], ref[k][p], 2e-5,
                                    np.abs(wf[p]).max()),
                        'depends-on-other-pixels-' + k,
                        lambda: (label, p, got[k][p], ref[k][p]))
    c.nontrivial(name, kind, kw)


@group(quick=24, thorough=600)
def awkward(c):
    """Inputs that are read-only, of other types and layouts or not finite"""
    from CHECLabPy.core.chain import WaveformReducerChain
    from CHECLabPy.core.io.waveform import Waveform
    from vlib import camera, reduce
    rng = c.rng
    n = 256
    on = [k for k in columns(c, n) if k not in reduce.NNLS]
    off = {k: False for k in reduce.ALL}
    kw = dict(reference_pulse_path=reduce.PULSES[int(rng.integers(2))],
              mapping=camera.mapping_of('quad'), **settings(c))
    chain = WaveformReducerChain(
        n, 128, **{**off, **{k: True for k in on}}, **kw)
    kinds = []
    for _ in range(3):
        wf, kind = reduce.event(rng, n, dtype=np.float64)
        wf = np.round(wf)  # the same values in every type
        scale = np.abs(wf).max()
        want = snapshot(run(c, chain, wf.copy(), on, kind))
        how = str(rng.choice(['readonly', 'waveform', 'fortran', 'strided',
                              'int', 'big-endian', 'nan', 'inf']))
        kinds.append(how)
        x = wf.copy()
        if how == 'readonly':
            x.flags.writeable = False
        elif how == 'waveform':
            x = Waveform(x, 3)
        elif how == 'fortran':
            x = np.asfortranarray(x)
        elif how == 'strided':
            x = np.repeat(x, 2, axis=1)[:, ::2]
        elif how == 'int':
            x = x.astype(np.int32)
        elif how == 'big-endian':
            x = x.astype('>f8')
        else:
            bad = rng.random(x.shape) < rng.choice([1e-4, 0.01, 1])
            x[bad] = np.nan if how == 'nan' else rng.choice(
                [np.inf, -np.inf], bad.sum())
        before = np.array(x, copy=True).tobytes()
        c.note(how=how, kind=kind, columns=on)
        try:
            with np.errstate(all='ignore'):
                d = chain.process(x)
        except Exception as e:
            # input that is not finite or of another type may be refused
            c.check(how in ('nan', 'inf', 'int', 'big-endian', 'readonly'),
                    'refused-' + how, repr(e))
            d = None
        c.check(np.array(x, copy=True).tobytes() == before,
                'input-changed-' + how, kind)
        c.event('awkward_inputs')
        # next to it, an ordinary event is what it was
        again = run(c, chain, wf.copy(), on, kind)
        for k in on:
            c.check(reduce.same(again[k], want[k], 2e-5, scale),
                    'value-after-{}-{}'.format(how, k), (k, kind))
            if d is not None and how in ('readonly', 'waveform'):
                c.check(reduce.same(np.asarray(d[k]), want[k], 2e-5, scale),
                        'value-of-{}-{}'.format(how, k), (k, kind))
    c.nontrivial(len(on), kinds)
