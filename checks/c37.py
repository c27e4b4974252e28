"""C37: parallel pixel fits give the sequential result"""
import glob
import os
import subprocess
import sys

import numpy as np
import pandas as pd

from vlib.engine import group

LEVEL = 'exploration'
TECHNIQUE = """runtime monitoring: the real executable under schedules varied
by injected delays and numbers of processes, its output file judged against
fits of each pixel alone"""
RULE = """Generated DL1 files (different pixels, events and illuminations) are
given to the real executable with one and several processes, with delays that
reorder the completion of pixels (recorded per process); every value, error,
histogram and curve in the output file is compared with a fit of that pixel
alone by a fresh fitter. Distinct by completion order and inputs."""
REQUIRE = ['pixels', 'parallel_runs', 'sequential_runs', 'processes_used',
           'reordered', 'real_pixels']
ASSUMPTIONS = ["pixels have charges inside the histogram range"]
WORKERS = dict(quick=3, thorough=4)


def setup():
    from vlib import synth
    synth.fitters()
    from CHECLabPy.core.factory import SpectrumFitterFactory as F
    for name, cls in synth.fitters().items():
        if name not in F.subclass_names:
            F.subclasses = list(F.subclasses) + [cls]
            F.subclass_names = list(F.subclass_names) + [name]
    import CHECLabPy.scripts.extract_spe  # noqa


def write_dl1(path, charges, rng, mapping=None):
    from CHECLabPy.core.io import HDF5Writer
    n_events, n_pixels = charges.shape
    df = pd.DataFrame(dict(
        iev=np.repeat(np.arange(n_events) * 3 + 1, n_pixels),
        pixel=np.tile(np.arange(n_pixels), n_events),
        charge_other=rng.normal(5, 3, charges.size).astype(np.float32),
        charge=charges.ravel().astype(np.float32),
    ))
    with HDF5Writer(path) as w:
        w.append(df, key='data')
        w.add_metadata(key='data', n_events=n_events, n_pixels=n_pixels,
                       is_mc=False, n_modules=1, n_samples=128)
        w.add_mapping(mapping)
    return charges.astype(np.float32)


def small_mapping(rng, n_pixels):
    from vlib import camera
    df, meta = camera.layout_info('module')
    df = df.iloc[:n_pixels].copy()
    df['xpix'] = rng.normal(0, 1, n_pixels)
    meta['n_pixels'] = n_pixels
    meta['cfgfile'] = '/cfg/{}.cfg'.format(int(rng.integers(10 ** 6)))
    return camera.with_metadata(df, meta)


def read_result(path):
    from CHECLabPy.core.io import HDF5Reader
    with HDF5Reader(path) as r:
        return dict(values=r.read('values'), errors=r.read('errors'),
                    arrays=r.read('arrays'), mapping=r.get_mapping(),
                    metadata=dict(r.get_metadata()))


def compare(c, res, data, make, mapping, paths, name, initial, real=False):
    n_ill, n_pixels = len(data), data[0].shape[1]
    for t in ('values', 'errors', 'arrays'):
        if not c.equal(np.asarray(res[t].index), np.arange(n_pixels),
                       'pixel-rows', t):
            return
    rtol = 1e-6 if real else 1e-9
    for p in range(n_pixels):
        fitter = make()
        fitter.apply(*[q[:, p] for q in data])
        c.event('real_pixels' if real else 'pixels')
        for t, want in (('values', dict(fitter.fit_result_values)),
                        ('errors', dict(fitter.fit_result_errors))):
            if not c.check(set(res[t].columns) == set(want),
                           'columns', (t, list(res[t].columns))):
                return
            for k, v in want.items():
                c.close(res[t][k].iloc[p], v, 'pixel-' + t, rtol, 1e-9,
                        'pixel {} {}'.format(p, k))
        x, y, e = fitter.charge_histogram
        fx, fy = fitter.fit_result_curve
        row = res['arrays'].iloc[p]
        c.equal(row['charge_hist_x'], x, 'pixel-histogram')
        c.equal(row['charge_hist_edges'], e, 'pixel-histogram')
        c.close(row['fit_x'], fx, 'pixel-curve', 1e-6, 1e-6)
        ok = c.check(len(row['charge_hist_y']) == n_ill
                     and len(row['fit_y']) == n_ill, 'illuminations')
        for i in range(n_ill if ok else 0):
            c.equal(row['charge_hist_y'][i], y[i], 'pixel-histogram',
                    'pixel {}'.format(p))
            c.close(row['fit_y'][i], fy[i], 'pixel-curve', 1e-4, 1e-6,
                    'pixel {}'.format(p))
    m = res['metadata']
    c.check([str(f) for f in m['files']] == paths, 'meta-files', m['files'])
    c.check(m['fitter'] == name, 'meta-fitter', m['fitter'])
    c.check(m['n_illuminations'] == n_ill and m['n_pixels'] == n_pixels,
            'meta-numbers', m)
    c.check(dict(m['initial']) == initial, 'meta-initial',
            (m['initial'], initial))
    c.check(res['mapping'].metadata == mapping.metadata, 'mapping-metadata')
    for k in mapping.columns:
        c.equal(res['mapping'][k].values, mapping[k].values, 'mapping', k)


def initial_of(fitter, n_ill):
    res = {}
    for p in fitter.parameters:
        if p.multi:
            res.update({'{}{}'.format(p.name, i): p.initial
                        for i in range(n_ill)})
        else:
            res[p.name] = p.initial
    return res


@group(quick=24, thorough=400)
def schedules(c):
    from CHECLabPy.scripts import extract_spe
    from vlib import dl1, synth
    rng = c.rng
    n_pixels = int(rng.choice([1, 2, 7, 16, 33]))
    n_ill = int(rng.integers(1, 4))
    mapping = small_mapping(rng, n_pixels)
    data, paths = [], []
    numbers = rng.permutation(9)[:n_ill]
    for i in range(n_ill):
        n_events = int(rng.integers(40, 200))
        q = rng.normal(rng.uniform(2, 12, n_pixels),
                       rng.uniform(0.5, 3, n_pixels), (n_events, n_pixels))
        if rng.random() < 0.3:  # whole numbers, zeros included
            q = np.maximum(np.round(q - 3), 0)
        path = c.path('Run{}_dl1.h5'.format(numbers[i]))
        other = mapping if i == 0 else small_mapping(rng, n_pixels)
        data.append(write_dl1(path, q, rng, other))
        paths.append(path)
    if rng.random() < 0.2:  # one run at two places
        data.append(data[0])
        paths.append(paths[0])
        n_ill += 1
    cls = synth.fitters()['MomentFitter']
    config = None
    if rng.random() < 0.5:
        config = c.path('config.yml')
        with open(config, 'w') as f:
            f.write('n_bins: {}\ninitial: {{lambda_: {}}}\n'.format(
                int(rng.integers(10, 60)), round(float(rng.uniform(1, 9)), 3)))

    def make():
        fitter = cls(n_ill)
        if config:
            fitter.load_config(config)
        return fitter
    make().apply(*[q[:, 0] for q in data])  # compiled once, before forking
    for n_proc in [1] + [int(n) for n in rng.choice([2, 3, 5, 8], 2, False)]:
        out = c.path('spe{}.h5'.format(n_proc))
        log = c.path('log{}'.format(n_proc))
        os.environ['VERIF_FIT_LOG'] = log
        if n_proc > 1:
            os.environ['VERIF_DELAY'] = str(rng.choice([0.002, 0.02, 0.06]))
        try:
            argv = ['-f', *paths, '-o', out, '-C', 'charge', '-s',
                    'MomentFitter', '--n_processes', n_proc]
            dl1.run_script(extract_spe, argv + (
                ['-c', config] if config else []))
        finally:
            os.environ.pop('VERIF_DELAY', None)
            os.environ.pop('VERIF_FIT_LOG', None)
        order = []
        logs = glob.glob(log + '.*')
        for path in logs:
            with open(path) as f:
                order += [tuple(map(float, ln.split())) for ln in f]
        sums = [float(np.sum(data[0][:, p])) for p in range(n_pixels)]
        done = [sums.index(s) for _, s in sorted(order) if s in sums]
        if n_proc > 1:
            c.event('parallel_runs')
            c.event('processes_used', len(logs))
            c.event('reordered', done != sorted(done))
        else:
            c.event('sequential_runs')
        c.nontrivial(n_ill, n_pixels, n_proc, hash(tuple(done)))
        compare(c, read_result(out), data, make, mapping, paths,
                'MomentFitter', initial_of(make(), n_ill))
    c.note(n_pixels=n_pixels, n_illuminations=n_ill, order=done[:20])


@group(quick=2, thorough=8)
def real(c):
    """The real fitters, in a process of their own"""
    rng = c.rng
    name = ['SiPMGentileFitter', 'MAPMFitter'][c.index % 2]
    n_pixels, n_ill = 5, 1
    mapping = small_mapping(rng, n_pixels)
    k = rng.poisson(rng.uniform(0.5, 1.5, n_pixels), (1500, n_pixels))
    q = rng.normal(k * 25.0 + rng.normal(0, 2, n_pixels),
                   np.sqrt(k * 4 + 36))
    path, out = c.path('Run0_dl1.h5'), c.path('spe.h5')
    data = [write_dl1(path, q, rng, mapping)]
    n_proc = int(rng.integers(2, 4))
    code = ('import sys; sys.argv[0] = "extract_spe"; from CHECLabPy.scripts '
            'import extract_spe; extract_spe.main()')
    r = subprocess.run(
        [sys.executable, '-c', code, '-f', path, '-o', out, '-C', 'charge',
         '-s', name, '--n_processes', str(n_proc)],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if not c.check(r.returncode == 0, 'executable', r.stdout[-1500:]):
        return
    c.event('parallel_runs')

    def make():
        from CHECLabPy.core.factory import SpectrumFitterFactory
        return SpectrumFitterFactory.produce(name, n_ill)
    compare(c, read_result(out), data, make, mapping, [path], name,
            initial_of(make(), n_ill), real=True)
    c.note(fitter=name, n_processes=n_proc)
    c.nontrivial('real', name, n_proc)
