"""C14: exactly the configured columns are extracted"""
import gc

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random YAML configurations (any subset of columns listed true or
false, settings, comments, empty files) and explicit arguments are given to
the real chain; the columns in the result of processing an event and the
reported configuration are compared with the documented precedence. Settings
are observed through the values of every column that uses them, compared with
a reference. The configuration generator runs as an executable and its output
is parsed and loaded. Distinct by configuration."""
ASSUMPTIONS = ["""columns without a documented default (waveform_max,
flasher_unit) are inactive in the chain unless set, and their state in the
generated file is not judged"""]
REQUIRE = ['chains', 'settings_observed', 'generated_files', 'defined_later']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 3


def setup():
    import CHECLabPy.core.chain  # noqa


def base(mapping):
    from vlib import reduce
    return dict(reference_pulse_path=reduce.PULSES[0], mapping=mapping)


def write_config(c, path, cols, extra):
    lines = []
    words = {True: ['True', 'true', 'yes', 'on'],
             False: ['False', 'false', 'no', 'off', 'FALSE', '0', 'null',
                     '~', '', '0.0']}
    for k, v in cols.items():
        if c.rng.random() < 0.2:
            lines.append('# {}: {}'.format(k, not v))
        lines.append('{}: {}'.format(k, c.rng.choice(words[bool(v)])))
    for k, v in extra.items():
        lines.append('{}: {}'.format(k, v))
    lines = [str(x) for x in c.rng.permutation(lines)] if lines else []
    with open(path, 'w') as f:
        f.write('\n'.join(lines))


@group(quick=40, thorough=1500)
def columns(c):
    from CHECLabPy.core.chain import WaveformReducerChain
    from vlib import reduce, camera
    mapping = camera.mapping_of('quad')
    pool = sorted(set(reduce.DEFAULTS) - reduce.NNLS) + ['waveform_max']
    n = int(c.rng.choice([0, 1, 3, 10, len(pool)]))
    in_file = {str(k): bool(c.rng.random() < 0.5)
               for k in c.rng.permutation(pool)[:n]}
    m = int(c.rng.choice([0, 0, 1, 4]))
    in_args = {str(k): bool(c.rng.random() < 0.5)
               for k in c.rng.permutation(pool)[:m]}
    extra, kw = {}, {}
    if c.rng.random() < 0.4:
        extra['window_size'] = int(c.rng.integers(1, 12))
    if c.rng.random() < 0.4:
        kw['window_size'] = int(c.rng.integers(1, 12))
    path = None
    if c.rng.random() < 0.75:
        path = c.path('config.yml')
        write_config(c, path, in_file, extra)
        eff = {**in_file, **extra, **in_args, **kw}
        state = {**in_file, **in_args}
    else:
        eff = {**reduce.DEFAULTS, **in_args, **kw}
        state = {**reduce.DEFAULTS, **in_args}
    want = {k for k, v in state.items() if v}
    c.note(file=in_file if path else None, args=in_args, extra=extra, kw=kw)
    if c.rng.random() < 0.3 and path is None:
        chain = WaveformReducerChain(256, 128, **base(mapping), **in_args,
                                     **kw)
    else:
        chain = WaveformReducerChain(256, 128, path, **base(mapping),
                                     **in_args, **kw)
    wf, _ = reduce.event(c.rng, 256)
    d = chain.process(wf)
    c.event('chains')
    c.check(set(d) == want, 'active-columns', lambda: set(d) ^ want)
    for k, v in eff.items():
        got = chain.config.get(k)
        c.check(k in chain.config and (bool(got) is v if isinstance(v, bool)
                                       else got == v and got is not True),
                'reported-config', lambda: (k, v, got))
    # An unlisted column is not reported active
    for k in pool:
        c.check(bool(chain.config.get(k, False)) == (k in want),
                'reported-active', k)
    c.nontrivial(path is not None, sorted(in_file.items()),
                 sorted(in_args.items()), sorted(extra), sorted(kw))


@group(quick=30, thorough=1000)
def settings(c):
    """Window and time settings reach every reducer that uses them"""
    from CHECLabPy.core.chain import WaveformReducerChain
    from vlib import reduce, camera, ref
    mapping = camera.mapping_of('module')
    nbr = camera.neighbours(mapping)
    kw = {}
    if c.rng.random() < 0.7:
        kw['window_size'] = int(c.rng.integers(1, 16))
    if c.rng.random() < 0.7:
        kw['window_shift'] = int(c.rng.integers(0, 9))
    if c.rng.random() < 0.5:
        kw['t_extract'] = int(c.rng.integers(20, 100))
    cols = ['t_averagewf', 'charge_averagewf', 'saturation_sum', 't_event',
            'charge_local', 'charge_nn', 'charge_sliding',
            'charge_sliding_local', 't_pulse', 't_pulse_amp', 'fwhm',
            't_rise']
    in_file = c.rng.random() < 0.5
    path = None
    args = {}
    if in_file:
        path = c.path('config.yml')
        write_config(c, path, {k: True for k in cols}, kw)
    else:
        args = {k: k in cols for k in reduce.ALL}
        args.update(kw)
    chain = WaveformReducerChain(64, 128, path, **base(mapping), **args)
    t = np.arange(128)
    from vlib import files
    t0 = c.rng.uniform(25, 95)
    wf = (c.rng.uniform(50, 90, (64, 1))
          * files.pulse_shape(t, t0 + c.rng.normal(0, 2, (64, 1)))
          + c.rng.normal(0, .5, (64, 128))).astype(np.float32)
    d = chain.process(wf)
    c.note(in_file=in_file, **kw)
    w = wf.astype(float)
    if 't_extract' in kw:
        ts = [kw['t_extract']]
    else:
        ts = ref.event_times(wf)
    for k in ('t_averagewf', 't_event'):
        got = set(np.atleast_1d(d[k]).tolist())
        c.check(len(got) == 1 and got <= set(ts), 'setting-' + k, (got, ts))
    c.event('settings_observed', len(kw) + 1)

    def any_of(col, wants):
        got = np.asarray(d[col], dtype=float)
        c.check(any(np.allclose(got, x, rtol=1e-4, atol=0.05)
                    for x in wants), 'setting-' + col,
                lambda: (col, kw, got[:4], [x[:4] for x in wants]))

    size, shift = kw.get('window_size', 6), kw.get('window_shift', 3)
    any_of('charge_averagewf',
           [ref.window_sum(w, t - shift, t - shift + size) for t in ts])
    any_of('saturation_sum',
           [ref.window_sum(w, t - kw.get('window_shift', 4), 128)
            for t in ts])

    def around(peaks):
        return np.array([ref.window_sum(w[[p]], t - shift, t - shift + size)[0]
                         for p, t in enumerate(peaks)])
    any_of('charge_local', [around(wf.argmax(1))])
    nn = ref.neighbour_average(w, nbr)
    got, want = d['charge_nn'], around(nn.argmax(1))
    s = np.sort(nn, 1)
    ok = s[:, -1] - s[:, -2] > 1e-3
    c.close(got[ok], want[ok], 'setting-charge_nn', 1e-4, .05)
    size = kw.get('window_size', 8)
    sums = np.array([ref.window_sum(w, s, s + size)
                     for s in range(128)]).T
    any_of('charge_sliding', [sums[:, s] for s in
                              ref.near_max(sums.mean(0), 1e-3)])
    c.check((np.asarray(d['charge_sliding_local']) >= sums.max(1) - .05).all(),
            'setting-charge_sliding_local', kw)
    # Timing searches its window about the event time
    size, shift = kw.get('window_size', 8), kw.get('window_shift', 4)
    ok = False
    for t in ts:
        lo = max(t - shift, 0)
        hi = max(t - shift + size, 0)
        if hi <= lo:
            ok = True
            continue
        peak = lo + wf[:, lo:hi].argmax(1)
        y = [w[np.arange(64), np.clip(peak + k, 0, 127)] for k in (-1, 0, 1)]
        b = y[0] - 2 * y[1] + y[2]
        with np.errstate(all='ignore'):
            v = peak + .5 * (y[0] - y[2]) / b
        # where the peak is well defined
        clear = (np.abs(b) > 1) & (np.abs(v - peak) < 1.5) & (v > 0)
        clear &= v < 126
        ok |= np.allclose(d['t_pulse'][clear], v[clear], atol=0.02)
    c.check(ok, 'setting-timing-window', lambda: (kw, ts, d['t_pulse'][:5]))
    c.nontrivial(in_file, sorted(kw.items()))


def check_documented(c, text):
    """Each column is followed by its documentation, as comments"""
    from CHECLabPy.core.reducer import column
    from vlib import reduce
    notes, name = {}, None
    for ln in text.splitlines():
        if ln.startswith('#'):
            notes.setdefault(name, []).extend(ln.split()[1:])
        elif ':' in ln:
            name = ln.split(':')[0]
    for r in reduce.reducers():
        for k in r.columns:
            doc = (column.registry[k].__doc__ or '').split()
            # The generator may cut the end of the last line
            if not doc:
                continue
            c.event('documented')
            c.check(notes.get(k, [])[:len(doc) - 1] == doc[:-1],
                    'generated-documentation',
                    lambda: (k, doc, notes.get(k)))


@group(quick=3, thorough=20)
def generated(c):
    """The configuration file generator"""
    import yaml
    from CHECLabPy.core.chain import WaveformReducerChain
    from vlib import dl1, reduce, camera
    bare = c.index % 2 == 1
    path = c.path('generated.yml')
    argv = ['-o', path] + (['--bare'] if bare else [])
    from CHECLabPy.scripts import generate_dl1_config
    dl1.run_script(generate_dl1_config, argv)
    with open(path) as f:
        text = f.read()
    loaded = yaml.safe_load(text)
    c.event('generated_files')
    c.check(isinstance(loaded, dict), 'generated-invalid', text[:300])
    known = {k for r in reduce.reducers() for k in r.columns}
    c.check(set(loaded) == known, 'generated-columns',
            lambda: set(loaded) ^ known)
    c.check(set(loaded) >= reduce.ALL, 'generated-columns',
            lambda: reduce.ALL - set(loaded))
    listed = [ln.split(':')[0] for ln in text.splitlines()
              if ln and not ln.lstrip().startswith('#')]
    c.check(len(listed) == len(set(listed)), 'generated-twice', listed)
    for k, v in reduce.DEFAULTS.items():
        c.check(loaded.get(k) is v, 'generated-default', (k, loaded.get(k)))
    if bare:
        c.check(all(len(ln.split()) <= 2 for ln in text.splitlines()),
                'generated-bare', text[:300])
    else:
        check_documented(c, text)
    # The defaults through the file are the defaults without it
    n = 2048 if loaded.get('flasher_unit') else 256
    mapping = camera.mapping_of('checs' if n == 2048 else 'quad')
    chain = WaveformReducerChain(n, 128, path, **base(mapping))
    wf, _ = reduce.event(c.rng, n)
    d = chain.process(wf)
    want = {k for k, v in reduce.DEFAULTS.items() if v}
    c.check(set(d) - reduce.OTHERS == want, 'generated-active',
            lambda: set(d) ^ want)
    c.nontrivial('generated', bare)


@group(quick=6, thorough=60)
def defined_later(c):
    """Reducers defined after a first chain was made take part in the next"""
    from CHECLabPy.core.chain import WaveformReducerChain
    from CHECLabPy.core.reducer import WaveformReducer, column
    from vlib import reduce, camera
    mapping = camera.mapping_of('module')
    tag = '_{}_{}_{}'.format(c.seed, c.tier[0], c.index)
    wf, _ = reduce.event(c.rng, 64)
    first = WaveformReducerChain(64, 128, **base(mapping))
    first.process(wf)
    active = bool(c.rng.random() < 0.5)
    form = int(c.rng.integers(3))

    def f(self):
        """A column of the user"""
        return self.waveforms.sum(1) * 2
    f.__name__ = 'col' + tag
    f.__qualname__ = 'Later{0}.col{0}'.format(tag)
    cls = type(WaveformReducer)('Later' + tag, (WaveformReducer,), {
        '__doc__': 'Defined later', f.__name__: column(f)})
    on = [True, 1, 'yes'][form] if active else [False, 0, None][form]
    path, args = None, {f.__name__: on}
    if c.rng.random() < 0.5:
        path, args = c.path('config.yml'), {}
        write_config(c, path, {f.__name__: active, 'waveform_max': True}, {})
    chain = WaveformReducerChain(64, 128, path, **base(mapping), **args)
    d = chain.process(wf)
    c.event('chains')
    c.event('defined_later')
    c.check((f.__name__ in d) == active, 'later-column',
            (f.__name__, on, sorted(d)))
    if active and f.__name__ in d:
        c.close(d[f.__name__], wf.sum(1) * 2, 'later-value', 1e-5, 1e-4)
    if path:
        c.check('waveform_max' in d and len(d) == 1 + active,
                'active-columns', sorted(d))
    del chain, cls, first
    gc.collect()
    c.nontrivial(active, form, path is not None)
