"""C11: simulated events in the camera's pixel order"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Simulation files with random pixel orders (random permutation, by
module, by row, by column, reversed) and unique waveforms per pixel; events
are read by iteration and in random index order, and each pixel's waveform,
true charge, and the event's number, time, shower and pointing values must be
those generated for the position of that pixel in that event. Distinct by
order, events and access."""
ASSUMPTIONS = ["""stand-ins for ctapipe (event source with back-seeking, camera
geometry with the two-mirror frame transformation) and target_calib"""]
REQUIRE = ['pixels', 'shower_values']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 5


def setup():
    import CHECLabPy.core.io  # noqa


def pixel_order(c):
    from vlib.camera import layout_info
    df, _ = layout_info('checs')
    r, col = df['row'].values, df['col'].values
    kind = str(c.rng.choice(['random', 'identity', 'rows', 'columns',
                             'reverse', 'modules', 'within']))
    if kind == 'random':
        order = c.rng.permutation(2048)
    elif kind == 'identity':
        order = np.arange(2048)
    elif kind == 'rows':
        order = np.lexsort((col, r))
    elif kind == 'columns':
        order = np.lexsort((-r, col))
    elif kind == 'reverse':
        order = np.arange(2048)[::-1]
    elif kind == 'modules':
        order = (c.rng.permutation(32)[:, None] * 64 + np.arange(64)).ravel()
    else:
        order = (np.arange(32)[:, None] * 64
                 + c.rng.permutation(64)[None]).ravel()
    return kind, order


@group(quick=14, thorough=400)
def orders(c):
    import pandas as pd
    from CHECLabPy.core.io import SimtelReader, WaveformReader
    from ctapipe.io import MC, POINTING, MCHEADER
    from vlib import files, dl1
    kind, order = pixel_order(c)
    n = int(c.rng.integers(1, 5))
    sim = files.random_sim(c.rng, n, n_samples=32, order=order)
    # a signature of pixel, event and sample in every waveform
    sim['waveforms'] = (np.arange(2048)[None, :, None] * 3
                        + np.arange(n)[:, None, None] * 10000
                        + np.arange(32)[None, None] / 64).astype(np.float32)
    if c.rng.random() < 0.4:  # bright showers
        px = c.rng.integers(0, 2048, 40)
        sim['mc_true'][:, px] = c.rng.integers(200, 2 * 10 ** 6, (n, 40))
    if c.rng.random() < 0.3:
        # real coordinates are not exactly on the grid
        sim['cam_x'] = sim['cam_x'] + c.rng.uniform(-1e-5, 1e-5, 2048)
        sim['cam_y'] = sim['cam_y'] + c.rng.uniform(-1e-5, 1e-5, 2048)
    path = c.path('x.simtel.gz')
    files.write_simtel(path, sim, magic=int(c.rng.integers(2)),
                       compress=bool(c.rng.random() < 0.5))
    pick = np.argsort(order)
    if c.rng.random() < 0.5:
        reader = SimtelReader(path)
    else:
        reader = WaveformReader.from_path(path)
    c.check(reader.n_pixels == 2048 and reader.n_samples == 32,
            'dimensions')
    c.check(reader.is_mc, 'is-mc')
    mapping = reader.mapping

    def check(wf, k):
        c.equal(np.asarray(wf), sim['waveforms'][k][pick], 'waveform-order',
                'event {}'.format(k))
        c.equal(np.asarray(wf.mc_true), sim['mc_true'][k][pick],
                'mc_true-order', 'event {}'.format(k))
        # the position of the simulated pixel served as pixel i
        j = np.rint((np.asarray(wf)[:, 0] - 10000 * k) / 3).astype(int)
        c.close(sim['cam_y'][j], mapping['xpix'].values, 'position', 0, 1e-4)
        c.close(-sim['cam_x'][j], mapping['ypix'].values, 'position', 0,
                1e-4)
        px = c.rng.integers(0, 2048, 3)
        for part in (wf[px], wf - 1, wf[:, 4:], wf.copy()):
            c.check(part.iev == k and part.t_cpu == wf.t_cpu
                    and np.array_equal(part.mc_true, wf.mc_true),
                    'derived-attributes')
        c.event('pixels', 2048)
        c.check(wf.iev == k, 'iev', (wf.iev, k))
        t = int(round(float(sim['gps'][k]) * 1e9))
        c.check(abs(pd.Timestamp(wf.t_cpu).value - t) < 2000, 't_cpu')
        for name, want in (('mc', MC), ('pointing', POINTING)):
            got = getattr(reader, name)
            c.check(got['iev'] == k, name + '-iev', (got['iev'], k))
            c.check(abs(pd.Timestamp(got['t_cpu']).value - t) < 2000,
                    name + '-t_cpu')
            for q in want:
                c.close(got[q], sim[q][k], name + '-values', 1e-12, 0, q)
                c.event('shower_values')
        c.check(reader.mc['shower_primary_id'] == sim['primary'][k],
                'primary')
        for (q, _), v in zip(MCHEADER, sim['header']):
            c.close(reader.mcheader[q], v, 'mcheader', 1e-12, 0, q)
        c.check(reader.mcheader['obs_id'] == int(sim['obs_id']), 'obs-id')
        c.check(reader.run_id == int(sim['obs_id']), 'run-id')

    access = [str(x) for x in c.rng.permutation(
        ['iterate', 'index', 'iterate', 'kept'])]
    for how in access:
        if how == 'iterate':
            m = 0
            for wf in reader:
                check(wf, m)
                m += 1
            c.check(m == n, 'events', (m, n))
        elif how == 'index':
            for k in c.rng.integers(0, n, 4):
                check(reader[int(k)], int(k))
        else:
            kept = [reader[k] for k in range(n)]
            for k, wf in enumerate(kept):
                c.equal(np.asarray(wf), sim['waveforms'][k][pick],
                        'kept-waveform')
                c.equal(np.asarray(wf.mc_true), sim['mc_true'][k][pick],
                        'kept-mc_true')
    c.note(order=kind, n=n, access=access)
    c.nontrivial(kind, n, '-'.join(access))


@group(quick=1, thorough=8)
def long_runs(c):
    """More events than a byte can count, in any order"""
    from CHECLabPy.core.io import SimtelReader
    from vlib import files
    n = int(c.rng.integers(258, 300))
    sim = files.random_sim(c.rng, 2, n_samples=26)
    for k, v in sim.items():
        if np.ndim(v) and len(v) == 2 and k not in ('waveforms', 'header'):
            sim[k] = np.repeat(v[:1], n, axis=0)
    sim['gps'] = 1.5e9 + np.arange(n) * 0.5
    sim['mc_true'] = c.rng.integers(0, 9, (n, 2048))
    sim['energy'] = c.rng.uniform(0.1, 9, n)
    sim['waveforms'] = np.repeat(np.arange(n, dtype=np.float32), 2048 * 4)\
        .reshape((n, 2048, 4)) + np.arange(2048, dtype=np.float32)[:, None] / \
        4096
    path = c.path('long.simtel.gz')
    files.write_simtel(path, sim, compress=False)
    pick = np.argsort(sim['order'])
    reader = SimtelReader(path)
    c.check(len(reader) == n, 'events', (len(reader), n))

    def check(wf, k):
        c.check(wf.iev == k, 'iev', (wf.iev, k))
        c.check(abs(float(np.asarray(wf)[0, 0]) - k) < 1, 'waveform-order',
                (k, float(np.asarray(wf)[0, 0])))
        c.equal(np.asarray(wf.mc_true), sim['mc_true'][k][pick],
                'mc_true-order', k)
        c.check(reader.mc['iev'] == k and reader.pointing['iev'] == k,
                'mc-iev', k)
        c.close(reader.mc['energy'], sim['energy'][k], 'mc-values', 1e-12, 0)
        c.event('pixels', 2048)

    for k in [0, 255, 256, 257, n - 1, -1] + [
            int(x) for x in c.rng.integers(0, n, 20)]:
        check(reader[k], k % n)
    m = 0
    for wf in reader:
        check(wf, m)
        m += 1
    c.check(m == n, 'events', (m, n))
    c.note(n=n)
    c.nontrivial('long', n)
