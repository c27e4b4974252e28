"""C08: a DL1 file records its provenance; the input is never modified"""
import hashlib
import os

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Generated camera and simulation files under many file names are
reduced by the real executable with and without explicit outputs and
configurations; the metadata, configuration, mapping and per-module values are
read back with the DL1 reader and compared with the generated run; the input's
hash is taken before and after. Output paths equal to the input (also written
differently or through a link) must be refused. Distinct by name, camera,
configuration and kind."""
ASSUMPTIONS = ["stand-ins for target_io, target_calib and ctapipe",
               "directories on the path do not contain _r1 or .tio"]
REQUIRE = ['metadata_values', 'module_values', 'hashes']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 2


def setup():
    import CHECLabPy.scripts.extract_dl1  # noqa


def digest(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def make_run(c, n_total=None):
    from vlib import files
    version, n_modules = [('1.1.0', 1), ('9.2.0', 4), ('1.0.1', 1),
                          ('9.3.0', 9), ('9.4.0', 12)][
        int(c.rng.choice(5, p=[.3, .3, .2, .1, .1]))]
    run = files.random_run(
        c.rng, n_total or 3 + int(c.rng.integers(1, 6)), camera=version,
        n_modules=n_modules, n_samples=int(c.rng.choice([48, 64, 128])))
    if c.rng.random() < 0.3:
        run['n_sp'] = int(c.rng.integers(1, 16))
    return run


def write_config(c):
    cfg = {}
    for col in ('waveform_max', 'baseline_start_mean', 'charge_averagewf',
                't_averagewf'):
        if c.rng.random() < 0.7:
            cfg[col] = bool(c.rng.random() < 0.7)
    if not any(cfg.values()):
        cfg['waveform_max'] = True
    if c.rng.random() < 0.6:
        cfg['window_size'] = int(c.rng.integers(1, 20))
        cfg['window_shift'] = int(c.rng.integers(0, 9))
    if c.rng.random() < 0.3:
        cfg['t_extract'] = int(c.rng.integers(10, 30))
    path = c.path('cfg.yml')
    with open(path, 'w') as f:
        for k, v in cfg.items():
            f.write('{}: {}\n'.format(k, v))
    return path, cfg


def check_output(c, path, out, run, cfg, t0):
    import pandas as pd
    from CHECLabPy.core.io import DL1Reader
    from CHECLabPy.core.chain import WaveformReducerChain
    from target_calib import VERSIONS
    from vlib import camera, h5
    if not c.check(os.path.exists(out), 'output-name',
                   (out, os.listdir(os.path.dirname(out)))):
        return
    n_pix = run['n_modules'] * 64
    with DL1Reader(out) as reader:
        meta = reader.metadata
        want = dict(
            run_id=run['run'], is_mc=False, n_modules=run['n_modules'],
            n_pixels=n_pix, n_superpixels_per_module=run['n_sp'],
            n_samples=run['waveforms'].shape[2],
            camera_version=run['camera'],
            n_cells=VERSIONS[run['camera']][1], input_path=path,
            source='CHECLabPy',
        )
        for k, v in want.items():
            c.check(k in meta and meta[k] == v, 'metadata-' + k,
                    lambda: '{!r} instead of {!r}'.format(meta.get(k), v))
            c.event('metadata_values')
        date = meta['date_generated']
        c.check(t0 - pd.Timedelta('1D') <= date
                <= pd.Timestamp.now() + pd.Timedelta('1D'),
                'metadata-date', date)
        for k in ('is_mc', 'n_modules', 'n_pixels', 'n_samples',
                  'n_superpixels_per_module', 'camera_version'):
            c.check(getattr(reader, k) == want[k], 'property-' + k)
        used = dict(WaveformReducerChain.default_columns) \
            if cfg is None else cfg
        for k, v in used.items():
            c.check(k in reader.config and reader.config[k] == v,
                    'config', lambda: '{}: {!r} instead of {!r}'.format(
                        k, reader.config.get(k), v))
            c.event('config_values')
        if cfg is not None:
            from CHECLabPy.core.reducer import column
            for k in column.registry:
                if k not in cfg:
                    c.check(not reader.config.get(k), 'config-extra', k)
        layout = 'module' if run['n_modules'] == 1 else \
            VERSIONS[run['camera']][0]
        model = h5.Model()
        model.mapping = camera.mapping_of(layout)
        h5.check_mapping(c, reader, model)
        mapping = reader.mapping
        c.check(mapping.metadata['n_pixels'] == n_pix, 'mapping-property')
        for name, n in (('sn', 1), ('sipm_temp', 1), ('primary_temp', 1),
                        ('dac', run['n_sp']), ('hvon', run['n_sp'])):
            got = reader.get_metadata('data', name)
            c.check(len(got) == n * run['n_modules'], 'module-entries',
                    (name, len(got)))
        for tm in range(run['n_modules']):
            c.check(reader.get_sn(tm) == run['SN'][tm], 'module-sn', tm)
            c.check(reader.get_sipm_temp(tm) == run['TSIPM'][tm],
                    'module-sipm-temp', tm)
            c.check(reader.get_primary_temp(tm) == run['TPRIM'][tm],
                    'module-primary-temp', tm)
            for sp in range(run['n_sp']):
                c.check(reader.get_sp_dac(tm, sp) == run['DAC'][tm, sp],
                        'module-dac', (tm, sp))
                c.check(reader.get_sp_hvon(tm, sp) == run['HVON'][tm, sp],
                        'module-hvon', (tm, sp))
                c.event('module_values', 2)
            c.event('module_values', 3)


@group(quick=20, thorough=500)
def camera_files(c):
    import pandas as pd
    from vlib import dl1, files
    run = make_run(c)
    if c.rng.random() < 0.1:
        run['STALE'][:] = 1
    stem = str(c.rng.choice(['Run00042', 'run', 'a.b', 'x y', 'r1', 'dl1']))
    path = c.path(stem + '_r1.tio')
    files.write_tio(path, run)
    cfg_path, cfg = write_config(c) if c.rng.random() < 0.8 else (None, None)
    out = None
    if c.rng.random() < 0.4:
        out = c.path(str(c.rng.choice(['o.h5', 'new/dir/o.h5', 'o.dl1'])))
    before = digest(path)
    t0 = pd.Timestamp.now()
    _, scale = dl1.flush_scale(c.rng, run['n_modules'] * 64, 9)
    c.note(path=os.path.basename(path), out=out and os.path.basename(out),
           camera=run['camera'], cfg=cfg)
    dl1.extract(path, out, cfg_path, None, scale)
    c.check(digest(path) == before, 'input-modified')
    c.event('hashes')
    c.check(os.path.exists(path), 'input-removed')
    check_output(c, path, out or c.path(stem + '_dl1.h5'), run, cfg, t0)
    c.nontrivial(stem, run['camera'], sorted((cfg or {}).items()), out is None)


@group(quick=3, thorough=40)
def several_inputs(c):
    """Each input of one call gets its own file with its own provenance"""
    import pandas as pd
    from CHECLabPy.scripts import extract_dl1
    from vlib import dl1, files
    runs, paths = [], []
    for i in range(int(c.rng.integers(2, 5))):
        runs.append(make_run(c, 5))
        paths.append(c.path('Run{:05d}_r1.tio'.format(i)))
        files.write_tio(paths[-1], runs[-1])
    before = [digest(p) for p in paths]
    t0 = pd.Timestamp.now()
    cfg_path, cfg = write_config(c)
    dl1.run_script(extract_dl1, ['-c', cfg_path, '-f'] + paths)
    c.check([digest(p) for p in paths] == before, 'input-modified')
    c.event('hashes', len(paths))
    for p, r in zip(paths, runs):
        check_output(c, p, p.replace('_r1.tio', '_dl1.h5'), r, cfg, t0)
    c.note(n=len(paths))
    c.nontrivial(len(paths), c.index)


@group(quick=5, thorough=60)
def prepared_together(c):
    """Files reduced in one program, all prepared before the first is
    written"""
    import pandas as pd
    from CHECLabPy.core.io import WaveformReader
    from CHECLabPy.scripts.extract_dl1 import DL1Extractor, DL1Writer
    from vlib import files
    todo = []
    t0 = pd.Timestamp.now()
    for i in range(int(c.rng.integers(2, 4))):
        run = make_run(c, 5)
        path = c.path('Run{:05d}_r1.tio'.format(i))
        files.write_tio(path, run)
        cfg_path, cfg = write_config(c)
        reader = WaveformReader.from_path(path)
        todo.append((path, run, cfg, reader, DL1Extractor(reader, cfg_path)))
    for i in c.rng.permutation(len(todo)):
        path, run, cfg, reader, extractor = todo[i]
        DL1Writer.write_dl1_file(reader, extractor)
        check_output(c, path, path.replace('_r1.tio', '_dl1.h5'), run, cfg,
                     t0)
    c.event('prepared', len(todo))
    c.nontrivial(len(todo), [t[1]['n_modules'] for t in todo])


@group(quick=3, thorough=40)
def simulations(c):
    from CHECLabPy.core.io import DL1Reader
    from ctapipe.io import MCHEADER
    from vlib import dl1, files, camera, h5
    sim = files.random_sim(c.rng, 2, n_samples=48)
    stem = str(c.rng.choice(['gamma_20deg', 'run1', 'a.b']))
    path = c.path(stem + '.simtel.gz')
    files.write_simtel(path, sim, magic=int(c.rng.integers(2)))
    before = digest(path)
    cfg_path, cfg = write_config(c)
    dl1.extract(path, None, cfg_path)
    c.check(digest(path) == before, 'input-modified')
    c.event('hashes')
    out = c.path(stem + '_dl1.h5')
    if not c.check(os.path.exists(out), 'output-name', os.listdir(c.dir)):
        return
    with DL1Reader(out) as reader:
        for k, v in dict(is_mc=True, n_modules=32, n_pixels=2048,
                         n_samples=48, camera_version='1.1.0',
                         run_id=int(sim['obs_id']),
                         input_path=path).items():
            c.check(reader.metadata[k] == v, 'metadata-' + k,
                    (reader.metadata[k], v))
            c.event('metadata_values')
        header = reader.get_metadata('mc', 'mcheader')
        c.check(header['obs_id'] == int(sim['obs_id']), 'mcheader')
        for (k, _), v in zip(MCHEADER, sim['header']):
            c.check(k in header and abs(header[k] - v) <= 1e-9 * abs(v),
                    'mcheader', (k, header.get(k), v))
        for k, v in cfg.items():
            c.check(reader.config.get(k) == v, 'config', k)
        model = h5.Model()
        model.mapping = camera.mapping_of('checs')
        h5.check_mapping(c, reader, model)
    c.note(path=os.path.basename(path), cfg=cfg)
    c.nontrivial('sim', stem, sorted(cfg.items()))


@group(quick=8, thorough=60)
def output_is_input(c):
    from vlib import dl1, files
    run = make_run(c, 5)
    kind = ['same', 'dots', 'link', 'relative', 'default'][c.index % 5]
    path = c.path('data.dat' if kind == 'default' else 'Run_r1.tio')
    files.write_tio(path, run)
    out = path
    if kind == 'dots':
        os.makedirs(c.path('sub'))
        out = c.path('sub/../Run_r1.tio')
    elif kind == 'link':
        out = c.path('link.h5')
        os.symlink(path, out)
    elif kind == 'relative':
        out = os.path.relpath(path)
    elif kind == 'default':
        out = None
    before = digest(path)
    cfg_path, cfg = write_config(c)
    try:
        dl1.extract(path, out, cfg_path)
        refused = False
    except Exception:
        refused = True
    c.check(digest(path) == before, 'input-modified', kind)
    c.event('hashes')
    c.check(refused, 'not-refused', kind)
    c.event('refusals', refused)
    c.note(kind=kind)
    c.nontrivial(kind)
