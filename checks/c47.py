"""C47: calls leave their arguments and the interpreter's state alone"""
import importlib

import numpy as np

from vlib.engine import Case, group, groups_of

LEVEL = 'exploration'
RULE = """Every function and method of the package is wrapped; the workloads
of the other checks then run with their own verdicts ignored. Around each
outermost call all array, table and container arguments are fingerprinted
(values, types, columns, index, attached metadata), and the state of the
interpreter (random generators, numpy's error handling and print options,
warnings filters, working directory, environment, locale, threads, pandas
options) is recorded; both must be the same after the call, also when it
raises. Compiled functions, and the parts of the package that the workloads
only reach from inside other calls, are called directly. Distinct by
workload."""
ASSUMPTIONS = ["""the state of matplotlib (rcParams, figures) belongs to the
plots and is not judged""",
               "arguments that are objects of other types are not inspected"]
REQUIRE = ['calls', 'arguments', 'callables', 'compiled_calls',
           'direct_calls']
WORKERS = dict(quick=8, thorough=8)
SLOW = {'C35', 'C37', 'C45', 'C20'}
MONITOR = None
WORK = []


def setup():
    global MONITOR
    from vlib.calls import Monitor
    MONITOR = Monitor().install()
    for i in range(1, 47):
        pid = 'C{:02}'.format(i)
        if pid in SLOW:
            continue
        m = importlib.import_module('checks.' + pid.lower())
        for name, (f, _) in sorted(groups_of(m).items()):
            WORK.append((pid, m, name, f))
    MONITOR.on = False
    done = set()
    for pid, m, _, _ in WORK:
        if pid not in done and hasattr(m, 'setup'):
            done.add(pid)
            m.setup()


@group(quick=240, thorough=4000)
def workloads(c):
    pid, m, name, f = WORK[c.index % len(WORK)]
    inner = Case(pid, name, c.index // len(WORK), c.seed, c.tier, c.dir)
    c.note(workload=pid + '/' + name)
    MONITOR.reset()
    MONITOR.on = True
    try:
        f(inner)
    except Exception as e:
        # what it means is for the workload's own check to say
        c.note(ended=repr(e)[:100])
    finally:
        MONITOR.on = False
    c.event('calls', sum(MONITOR.calls.values()))
    c.event('arguments', MONITOR.arguments)
    c.event('callables', len(MONITOR.calls))
    c.check(True, 'none')
    for q, what, detail in MONITOR.found[:10]:
        c.fail('{}-{}'.format('state' if not what.startswith('arg') else
                              'argument', q.split('.')[-1]),
               (q, what, detail))
    if MONITOR.calls:
        c.nontrivial(pid, name)


def compiled_calls(rng):
    """(name, function, arguments) of each compiled function"""
    from CHECLabPy.calib import time_calibrator
    from CHECLabPy.spectrum_fitters import gentile, mapm
    from CHECLabPy.stats import pdf, welfords
    from CHECLabPy.waveform_reducers import cross_correlation as cc, timing
    from vlib import reduce
    dt = np.float32 if rng.random() < 0.5 else np.float64
    wf = reduce.event(rng, 64, dtype=dt)[0]
    x = np.linspace(-20, 200, 110)
    k = rng.integers(0, 20, 40)
    yield 'timing', timing.obtain_pulse_timing, [wf, 30, 60]
    yield 'pulse_time', cc.extract_pulse_time, [wf, wf.argmax(1)]
    for name, obj in vars(time_calibrator).items():
        if hasattr(obj, 'py_func'):
            yield name, obj, [wf, rng.normal(0, 2, 64)]
    for name, obj in vars(welfords).items():
        if hasattr(obj, 'py_func'):
            yield name, obj, None
    yield 'binom', pdf.binom, [k + 20, k]
    yield 'poisson', pdf.poisson, [k, rng.uniform(0, 5, 40)]
    yield 'normal_pdf', pdf.normal_pdf, [x.astype(np.float32),
                                         np.full(110, 3.), np.full(110, 9.)]
    for name in ('xlogy', 'poisson_logpmf'):
        if hasattr(pdf, name):
            yield name, getattr(pdf, name), [
                k.astype(np.float32), rng.uniform(.1, 9, 40)]
    yield 'gentile', gentile.sipm_gentile_spe, [x, 0., 9., 25., 2., .4, .7]
    yield 'mapm', mapm.mapm_spe, [x, 0., 9., 25., 8., .7]


@group(quick=6, thorough=200)
def compiled(c):
    from vlib.calls import fingerprint, state
    for name, f, args in compiled_calls(c.rng):
        if args is None:
            continue
        before, s = fingerprint(args), state()
        try:
            f(*args)
        except Exception as e:  # for the check of this function
            c.note(**{name: repr(e)[:80]})
        c.event('compiled_calls')
        c.check(fingerprint(args) == before, 'argument-' + name)
        after = state()
        for k in ('numpy.random', 'numpy error handling',
                  'working directory'):
            c.check(s[k] == after[k], 'state-' + name, k)
    c.nontrivial('compiled', c.index)


def direct_plotting(c, call):
    import matplotlib
    matplotlib.use('agg')
    from CHECLabPy.calib.pixel_masks import PixelMasks
    from CHECLabPy.calib.sipm_data_sheet import SiPMDataSheetConverter
    from CHECLabPy.plotting import resolutions as pr
    from CHECLabPy.plotting.camera import CameraImage, CameraImageImshow
    from CHECLabPy.plotting.setup import Plotter
    from CHECLabPy.plotting.spe import SpectrumFitPlotter
    from CHECLabPy.plotting.waveform import CameraPixelWaveformPlotter, \
        CameraTMWaveformPlotter, WaveformPlotter
    from CHECLabPy.scripts.plot_spe import SPECamera, SPEHist
    from vlib import camera
    import matplotlib.pyplot as plt
    rng = c.rng
    plt.show = lambda *a, **k: None
    mapping = camera.mapping_of('module')
    n = len(mapping)
    image = rng.normal(10, 4, n)
    ci = call(CameraImage.from_mapping, mapping)
    cs = call(CameraImage, mapping['xpix'].values, mapping['ypix'].values,
              mapping.metadata['size'])
    ims = call(CameraImageImshow, mapping['row'].values,
               mapping['col'].values, mapping.metadata['n_rows'],
               mapping.metadata['n_columns'])
    imf = call(CameraImageImshow.from_mapping, mapping)
    for im in (ci, cs, ims, imf):
        if im is None:
            continue
        im.image = image
        call(im.add_pixel_text, image)
        call(im.add_text_to_pixel, 3, 4.5)
        call(im.set_limits_minmax, 1., 9.)
        call(im.reset_limits)
        call(im.add_colorbar, 'x')
        call(im.annotate_on_telescope_up)
        call(im.annotate_tm_edge_label)
        call(im.save, c.path('a.png'))
    for im in (ci, cs):
        call(im.highlight_pixels, np.array([3, 5, 60]))
        call(im.highlight_pixels, rng.random(n) > .5)
        call(im.highlight_pixels, [1, 2])
        call(im.set_cmap, 'gray')
        call(im.annotate_led_flasher)
        im.image = np.abs(image) + 1
        call(im.set_z_log)
    call(CameraImage.crop, c.path('b.png'))
    plt.close('all')
    # resolutions and statistics over generic numbers
    from CHECLabPy.utils.resolutions import ChargeResolution, \
        ChargeStatistics, IntensityResolution
    k = 400
    pixel = rng.integers(0, 8, k)
    true = rng.choice([.0, 1.3, 7.7, 120.1, 999.9], k)
    dt = rng.choice([np.float32, np.float64])
    measured = (true * rng.normal(1.1, .2, k) + rng.normal(0, .3, k)
                ).astype(dt)
    pairs = []
    for cls, args in ((ChargeResolution, (True,)), (ChargeResolution,
                      (False,)), (IntensityResolution, (True,)),
                      (ChargeStatistics, ())):
        o = call(cls, *args)
        for part in np.array_split(np.arange(k), 3):
            call(o.add, pixel[part], true[part], measured[part])
        frozen = [pixel[:9], true[:9], measured[:9]]
        for a in frozen:
            a.flags.writeable = False
        call(o.add, *frozen)
        for a in (pixel, true, measured):
            a.flags.writeable = True
        if getattr(o, '_df_list', None) and hasattr(o, '_amalgamate'):
            call(o._amalgamate)
        pairs.append((cls, call(o.finish)))
    for cls, ((dfp, dfc)) in pairs:
        store = dict(charge_resolution_pixel=dfp, charge_statistics_pixel=dfp,
                     charge_resolution_camera=dfc,
                     charge_statistics_camera=dfc)
        for P in ((pr.ChargeMeanPlotter,) if cls is ChargeStatistics else
                  (pr.ChargeResolutionPlotter,
                   pr.ChargeResolutionWRRPlotter)):
            o = call(P)
            call(o.set_store, store)
            call(o.plot_pixel, 3, label='a')
            call(o.plot_camera, label='b')
            if cls is not ChargeStatistics:
                x = np.sort(rng.uniform(1, 900, 30))
                x[:2] = 0 if rng.random() < 0.5 else x[0]
                for f in ('plot_requirement', 'plot_goal', 'plot_poisson',
                          'requirement', 'goal', 'poisson'):
                    call(getattr(o, f), x)
            call(o.finish)
    call(ChargeResolution.rmse, true, measured ** 2, pixel + 1)
    call(ChargeResolution.charge_res, true, measured ** 2, pixel + 1)
    call(ChargeResolution.rmse_abs, measured ** 2, pixel + 1)
    call(ChargeResolution.charge_res_abs, true, measured ** 2, pixel + 1)
    call(pr.sum_errors, measured)
    call(pr.bin_points, true + 1, measured, np.abs(measured) + .1)
    plt.close('all')
    # others
    p = call(Plotter)
    call(p.add_legend)
    call(p.get_figsize)
    call(p.create_figure)
    call(p.save, c.path('p.pdf'))
    w = call(WaveformPlotter, 'a', 'b')
    call(w.add, np.arange(64.), rng.normal(0, 1, 64), 'x')
    call(w.finish)
    call(p.close)
    edges = np.linspace(-5, 50, 31)
    between = (edges[1:] + edges[:-1]) / 2
    sp = call(SpectrumFitPlotter, 2)
    call(sp.plot, between, [rng.integers(0, 9, 30)] * 2, edges,
         np.linspace(-5, 50, 99), [rng.random(99)] * 2,
         dict(lambda_0=1., lambda_1=2., b=3.),
         dict(lambda_0=.1, lambda_1=.2, b=.3),
         dict(lambda_0=1., lambda_1=2., b=3.))
    sc = call(SPECamera, mapping)
    call(sc.set_image, image, np.abs(image))
    sh = call(SPEHist)
    call(sh.plot, image)
    tm = call(CameraTMWaveformPlotter, mapping, 'x')
    wf = rng.normal(0, 3, (n, 64))
    call(tm.plot_waveforms, wf)
    px = call(CameraPixelWaveformPlotter, mapping)
    call(px.plot_waveforms, wf)
    call(px.highlight_pixels, rng.random(n) > .5)
    call(px.reset_pixel_highlight)
    m = call(PixelMasks)
    call(m.plot)
    call(SiPMDataSheetConverter().plot)
    plt.close('all')


def direct_calibration(c, call):
    from CHECLabPy.calib.amplitude_calibrator import AmplitudeCalibrator
    from CHECLabPy.calib.amplitude_matcher import AmplitudeMatcher
    from CHECLabPy.calib.illumination_profile import IlluminationProfile
    from CHECLabPy.calib.pixel_masks import PixelMasks
    from CHECLabPy.calib.time_calibrator import TimeCalibrator
    from CHECLabPy.utils import waveform as uw
    from CHECLabPy.waveform_reducers.timing import Timing
    from vlib import camera, reduce
    from vlib.source import Source
    rng = c.rng
    n, ns = 64, int(rng.integers(20, 70))
    a = AmplitudeCalibrator(rng.normal(1, .1, n), rng.normal(0, 1, n), 3.3)
    for pixels in (np.arange(n), rng.integers(0, n, 30)):
        for values in (rng.normal(20, 9, len(pixels)),
                       rng.normal(20, 9, len(pixels)).astype(np.float32),
                       rng.integers(0, 90, len(pixels))):
            call(a, values, pixels)
    path = c.path('profile.dat')
    np.savetxt(path, rng.uniform(.5, 2, (n, 1)), header='correction',
               comments='')
    ip = IlluminationProfile(path)
    for image in (rng.normal(9, 3, n), rng.normal(9, 3, n).astype('f4')):
        call(ip.fold, image)
        call(ip.unfold, image)

    class Calibrator:
        n_pixels, n_samples = n, ns

        def __call__(self, waveforms, fci):
            return waveforms * np.float32(.7)
    dacs = rng.integers(0, 256, n // 4)
    hv = rng.random(n) < .2
    am = call(AmplitudeMatcher, Calibrator(), 40.3, dacs, hv, ip)
    if am is not None:
        for name, args in (
                ('_extract_amplitude', (rng.normal(600, 9, (n, ns)), 33)),
                ('_calculate_average', (rng.normal(40, 9, (5, n)),)),
                *[('_get_next_dac', (rng.normal(0, 30, n // 4),
                                     rng.choice([-1, 1], n // 4)))
                  for _ in range(6)]):
            if hasattr(am, name):
                call(getattr(am, name), *args)
    pm = call(PixelMasks)
    call(pm.convert_superpixels_to_pixels, [1, 5])
    call(pm.convert_superpixels_to_pixels, np.array([3, 9]))
    call(pm.convert_module_to_pixels, [3])
    tc = TimeCalibrator()
    big = rng.normal(0, 9, (2048, 32))
    call(tc, big)
    call(tc, big.astype(np.float32))
    # baselines, averages
    wfs = rng.normal(3, 2, (int(rng.integers(2, 60)), n, ns)) + \
        reduce.event(rng, n, ns)[0]
    source = Source(wfs)
    b = call(uw.BaselineSubtractor, source, 5, 9)
    if b is not None:
        for e in list(source)[:7]:
            call(b.update_baseline, e)
            call(b.subtract, e)
        call(b.subtract, np.asfortranarray(wfs[0]))
    for t in (-3, 0, 4):
        call(uw.shift_array, wfs[0], t)
        call(uw.shift_waveform, wfs[1], 9 + t)
    call(uw.get_average_wf, source, 12)
    call(uw.get_average_wf_per_pixel, source, 12)
    call(uw.obtain_dead_pixel_list_r1, source)
    x = rng.integers(0, 4, (5, 30)).astype(float)
    with np.errstate(all='ignore'):
        call(Timing.interpolate, *x)
        x1 = x[1].copy()
        call(Timing.interpolate, x[0], x1, x1.copy(), x[3], x[4])
    call(Timing.interpolate_peak, *x[:3])
    # mappings
    from CHECLabPy.utils import mapping as um
    m = camera.mapping_of('module')
    call(um.get_superpixel_mapping, m)
    call(um.get_tm_mapping, m)
    call(um.get_tc_mapping_from_clp_mapping, m)
    call(um.get_ctapipe_camera_geometry, m)
    call(um.get_row_column, m['xpix'].values, m['ypix'].values)
    # every reducer on its own
    from vlib.reduce import PULSES, reducers
    for cls in reducers():
        try:
            o = call(cls, n, ns, mapping=m, reference_pulse_path=PULSES[0],
                     window_start=int(rng.integers(0, 9)),
                     window_size=7, window_shift=3, n_sigma=3)
            for dtype in (np.float32, np.float64):
                o and call(o.process, reduce.event(rng, n, ns, dtype)[0])
        except TypeError:
            pass


def direct_io(c, call):
    from CHECLabPy.core.io import DL1Reader, HDF5Reader, HDF5Writer, \
        TIOReader
    from CHECLabPy.core.io.waveform import WaveformReader
    from CHECLabPy.scripts.extract_dl1 import DL1Extractor
    from CHECLabPy.utils import files as uf
    from checks import c48
    from vlib import dl1, files
    rng = c.rng
    p = c.path('Run1_r1.tio')
    files.write_tio(p, files.random_run(rng, 6, camera='1.1.0', n_modules=1))
    for cls in (TIOReader, WaveformReader.from_path):
        r = call(cls, p, max_events=3)
        for f in ('get_sn', 'get_sipm_temp', 'get_primary_temp'):
            call(getattr(r, f), 0)
        call(r.get_sp_dac, 0, 3)
        call(r.get_sp_hvon, 0, 3)
        for key in (slice(0, 2), 1):
            call(r.__getitem__, key)
    x = call(DL1Extractor, r, None)
    if x is not None:
        for wf in list(r)[:3]:
            call(x, wf)
            call(x.skip_event, wf)
    d = c.path('Run1_dl1.h5')
    c48.make_dl1(c, d, 3)
    with DL1Reader(d) as r:
        cols = ['charge', 'iev', 'charge']
        call(r.select_columns, cols)
        call(r.select_columns, cols, start=2, stop=9)
        call(r.select_column, 'charge')
    dl1.extract(p, c.path('big_dl1.h5'))
    with DL1Reader(c.path('big_dl1.h5')) as r:
        for f in ('get_sn', 'get_sipm_temp', 'get_primary_temp'):
            call(getattr(r, f), 0)
        call(r.get_sp_dac, 0, 3)
        call(r.get_sp_hvon, 0, 3)
    with HDF5Reader(d) as r:
        for key in ([0, 2], slice(1, 4)):
            call(r.select, 'data', start=1, stop=5)
        call(r.get_n_rows, 'data')
        call(r.get_metadata)
    import pandas as pd
    df = pd.DataFrame(dict(b=rng.normal(0, 1, 9), a=np.arange(9) % 4),
                      index=np.arange(9)[::-1])
    meta = dict(x=[1, 2], y=dict(z=np.arange(3)), t=pd.Timestamp('2019'))
    w = call(HDF5Writer, c.path('o.h5'))
    for _ in range(3):
        call(w.append, df, 'k')
    call(w.write, w2=df, w3=df[['a']])
    call(w.add_metadata, key='k', **meta)
    call(w.add_metadata, key='k', name='other', **meta)
    from checks.c37 import small_mapping
    call(w.add_mapping, small_mapping(rng, 5))
    call(w.__exit__, None, None, None)
    call(uf.natural_keys, 'a10b2')


def direct_fitting(c, call):
    from CHECLabPy.core.factory import SpectrumFitterFactory
    from CHECLabPy.core.spectrum_fitter import SpectrumParameter, \
        SpectrumParameterCollection
    from CHECLabPy.scripts.extract_spe import PixelFitApplier
    from vlib import synth
    rng = c.rng
    synth.fitters()
    ps = [SpectrumParameter('a', 1., (0., 2.)),
          SpectrumParameter('b', 1., (0., 2.), multi=True)]
    k = call(SpectrumParameterCollection, ps, 2)
    new = [SpectrumParameter('a', 1.5, (0., 2.), fixed=True)]
    call(k.update, new)
    f = call(SpectrumFitterFactory.produce, 'MomentFitter', 2)
    if f is None:
        return
    charges = [rng.normal(20, 5, (50, 3)) for _ in range(2)]
    call(f.apply, *[q[:, 0] for q in charges])
    call(f.update_initial, 1)
    call(f.save_config, c.path('fit.yml'))
    call(f.load_config, c.path('fit.yml'))
    call(f.apply, *[q[:, 1].astype(np.float32) for q in charges])
    call(f.apply, *[q[:, 1].astype(int) for q in charges])
    call(PixelFitApplier(f).process, *charges)
    f = call(SpectrumFitterFactory.produce, 'MomentFitter', 2)
    call(PixelFitApplier(f).multiprocess, 2, *charges)


DIRECT = [direct_plotting, direct_calibration, direct_io, direct_fitting]


@group(quick=16, thorough=800)
def direct(c):
    f = DIRECT[c.index % len(DIRECT)]
    c.note(workload=f.__name__)
    failed = []

    def call(g, *args, **kwargs):
        MONITOR.on = True
        try:
            return g(*args, **kwargs)
        except Exception as e:
            failed.append((getattr(g, '__qualname__', repr(g)),
                           repr(e)[:80]))
        finally:
            MONITOR.on = False
    MONITOR.reset()
    try:
        f(c, call)
    except Exception as e:
        failed.append((f.__name__, repr(e)[:200]))
    finally:
        MONITOR.on = False
    c.note(failed=failed[:9])

    c.event('direct_calls', sum(MONITOR.calls.values()))
    c.event('arguments', MONITOR.arguments)
    c.check(True, 'none')
    for q, what, detail in MONITOR.found[:10]:
        c.fail('{}-{}'.format('state' if not what.startswith('arg') else
                              'argument', q.split('.')[-1]),
               (q, what, detail))
    c.nontrivial(f.__name__, c.index)
