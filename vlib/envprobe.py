"""envprobe.py INPUTS OUT.json: runs many parts of the package on prepared
inputs and records every outcome (run in processes of different environments)"""
import glob
import json
import os
import sys
import warnings

import numpy as np


def plain(o):
    """JSON-able value that keeps order, types and numbers"""
    import pandas as pd
    if isinstance(o, pd.DataFrame):
        return dict(columns=[str(k) for k in o.columns],
                    types=[str(t) for t in o.dtypes],
                    index=plain(np.asarray(o.index)),
                    values=[plain(o[k].values) for k in o.columns])
    if isinstance(o, np.ndarray):
        if o.dtype.kind == 'M':
            return [int(x) for x in o.astype('M8[ns]').astype(np.int64).ravel()]
        if o.dtype.kind == 'O':
            return [plain(x) for x in o.ravel()]
        return [plain(x) for x in o.ravel()[:20000]]
    if isinstance(o, pd.Timestamp):
        return 'T{}'.format(o.value)
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, (float, np.floating)):
        return float(o)
    if isinstance(o, dict):
        return [[str(k), plain(v)] for k, v in o.items()]
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    if isinstance(o, (int, str)) or o is None:
        return o
    return str(type(o))


def run(inputs, out):
    sys.path.insert(0, os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    from vlib import dl1, reduce, synth
    warnings.simplefilter('ignore')
    res = {}
    with open(os.path.join(inputs, 'params.json')) as f:
        par = json.load(f)
    arr = dict(np.load(os.path.join(inputs, 'arrays.npz')))
    here = out + '.d'
    os.makedirs(here)

    def path(name):
        return os.path.join(inputs, name)

    # readers
    from CHECLabPy.core.io import DL1Reader, HDF5Reader
    from CHECLabPy.core.io.waveform import WaveformReader
    from CHECLabPy.core import child_subclasses
    for name in ('Run7_r1.tio', 'gamma.simtel.gz'):
        r = WaveformReader.from_path(path(name))
        res['reader ' + name] = [type(r).__name__, r.n_events, r.n_pixels,
                                 r.camera_version]
        res['times ' + name] = [plain(wf.t_cpu) for wf in r]
        res['waveforms ' + name] = plain(np.asarray(r[0])[:4])
        res['pixels ' + name] = plain(r.mapping)
    res['reader classes'] = [c.__name__ for c in
                             child_subclasses(WaveformReader)]
    # reduction
    from CHECLabPy.core.chain import WaveformReducerChain
    from CHECLabPy.core.reducer import column
    from CHECLabPy.scripts import extract_dl1, generate_dl1_config
    from vlib import camera
    mapping = camera.mapping_of('module')
    chain = WaveformReducerChain(
        64, 128, reference_pulse_path=reduce.PULSES[0], mapping=mapping,
        **{k: k not in reduce.NNLS | {'flasher_unit'}
           for k in reduce.ALL})
    for i, wf in enumerate(arr['events']):
        res['columns {}'.format(i)] = plain(dict(
            chain.process(wf)))
    res['registered columns'] = plain(list(column.registry))
    res['default columns'] = plain(dict(
        WaveformReducerChain.default_columns))
    for name, cfg in (('Run7_r1.tio', None), ('gamma.simtel.gz', 'cfg.yml')):
        o = os.path.join(here, name + '_dl1.h5')
        dl1.extract(path(name), o, path(cfg) if cfg else None)
        with DL1Reader(o) as r:
            for k in r.dataframe_keys:
                df = r.read(k)
                res['table {} {}'.format(name, k)] = plain(df)
                res['bytes {} {}'.format(name, k)] = int(r.get_n_bytes(k))
            for k in sorted(r.metadata_keys):
                for n in sorted(r.metadata_keys[k]):
                    m = dict(r.get_metadata(k, n))
                    for drop in ('date_generated', 'input_path', 'version'):
                        m.pop(drop, None)
                    if n == 'config':
                        m.pop('reference_pulse_path', None)
                        m.pop('mapping', None)
                    res['metadata {} {} {}'.format(name, k, n)] = plain(m)
            res['mapping ' + name] = plain(r.mapping)
    o = os.path.join(here, 'config.yml')
    dl1.run_script(generate_dl1_config, ['-o', o])
    with open(o) as f:
        res['generated configuration'] = f.read().splitlines()
    # statistics
    from CHECLabPy.utils.resolutions import ChargeResolution, ChargeStatistics
    from CHECLabPy.utils import files as uf, mapping as um, waveform as uw
    for mc in (True, False):
        cr = ChargeResolution(mc)
        for p, t, m in arr['charges']:
            cr.add(p.astype(int), t, m)
        res['resolution {}'.format(mc)] = [plain(d) for d in cr.finish()]
    cs = ChargeStatistics()
    for p, t, m in arr['charges']:
        cs.add(p.astype(int), t, m)
    res['statistics'] = [plain(d) for d in cs.finish()]
    # files and mappings
    res['sorted'] = uf.sort_file_list(list(par['names']))
    df = uf.open_runlist_dl1(path('runlist.txt'), open_readers=False)
    df['path'] = [os.path.basename(p) for p in df['path']]
    res['runlist'] = plain(df)
    res['hv'] = plain(list(uf.extract_hv_cfg(path('hv.cfg'))))
    for layout in ('module', 'quad', 'checs'):
        m = camera.mapping_of(layout)
        res['superpixels ' + layout] = plain(um.get_superpixel_mapping(m))
        if layout != 'quad':
            res['modules ' + layout] = plain(um.get_tm_mapping(m))
    # calibration
    from CHECLabPy.calib.pixel_masks import PixelMasks
    from CHECLabPy.calib.sipm_data_sheet import SiPMDataSheetConverter
    from CHECLabPy.calib.time_calibrator import TimeCalibrator
    pm = PixelMasks()
    res['masks'] = [plain(pm.dead), plain(pm.low), plain(pm.bad_hv)]
    res['data sheet'] = plain(SiPMDataSheetConverter()(vover=3.))
    res['calibrated'] = plain(TimeCalibrator()(np.tile(
        arr['events'][0], (32, 1)))[::32])
    res['shifted'] = plain(uw.shift_waveform(arr['events'][0], 40))
    # fits
    fitters = synth.fitters()
    for name in ['MomentFitter']:
        f = fitters[name](2)
        f.load_config(path('fit.yml'))
        f.apply(*arr['spe'])
        res['fit ' + name] = [plain(dict(d)) for d in (
            dict(f.fit_result_values), dict(f.fit_result_errors))]
        res['histogram ' + name] = [plain(np.asarray(x))
                                    for x in f.charge_histogram]
    if par['real_fit']:
        from CHECLabPy.core.factory import SpectrumFitterFactory as F
        f = F.produce('SiPMGentileFitter', 1)
        f.apply(arr['spe'][0])
        res['fit real'] = [plain(dict(d)) for d in (
            dict(f.fit_result_values), dict(f.fit_result_errors))]
        res['curve real'] = [plain(np.asarray(x))
                             for x in f.fit_result_curve]
    # plots
    from CHECLabPy.plotting.camera import CameraImage
    from CHECLabPy.plotting.resolutions import ChargeResolutionPlotter
    ci = CameraImage.from_mapping(mapping)
    ci.image = arr['events'][0].max(1)
    ci.fig.canvas.draw()
    res['image'] = plain(np.asarray(ci.pixels.get_array(), float))
    res['colours'] = plain(ci.pixels.get_facecolors())
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    run(*sys.argv[1:3])
