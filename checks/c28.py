"""C28: per-pixel calibration coefficients are applied"""
import glob
import os

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random coefficients (negative, tiny, large), values and pixel
selections are calibrated and compared element by element; profiles are written
to files with distinct coefficients, folded and unfolded; raw events with every
first cell pass through the waveform calibrator to a recording stand-in, which
sees what it was given. Distinct by shapes and selections."""
ASSUMPTIONS = ["stand-in for the TARGET calibration library"]
REQUIRE = ['values', 'scalars', 'profiles', 'events_calibrated']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 5


def setup():
    import CHECLabPy.calib  # noqa


@group(quick=150, thorough=8000)
def amplitude(c):
    from CHECLabPy.calib import AmplitudeCalibrator
    n_pix = int(c.rng.choice([1, 4, 64, 2048]))
    ff = c.rng.uniform(0.2, 3, n_pix)
    ped = c.rng.normal(0, 10.0 ** c.rng.integers(-2, 4), n_pix)
    conv = float(c.rng.choice([1, 0.25, 10 ** c.rng.uniform(-3, 3)]))
    keep = ff.copy(), ped.copy()
    cal = AmplitudeCalibrator(ff, ped, conv)

    def want(v, p):
        return (v - keep[1][p]) / conv * keep[0][p]
    for _ in range(4):
        shape = [(), (1,), (7,), (n_pix,), (3, 5)][int(c.rng.integers(5))]
        v = c.rng.normal(0, 100, shape)
        p = c.rng.integers(0, n_pix, shape)
        if shape == (n_pix,):
            p = c.rng.permutation(n_pix)
        if shape == ():
            v, p = float(v), int(p)
            c.event('scalars')
        elif c.rng.random() < 0.3:
            v = v.astype(np.float32)
        before = np.array(v).tobytes()
        got = cal(v, p)
        c.event('values', int(np.size(got)))
        c.check(np.array(v).tobytes() == before, 'amplitude-input')
        c.check(np.shape(got) == shape, 'amplitude-shape')
        exp = np.array([want(float(a), int(b)) for a, b in
                        zip(np.ravel(v), np.ravel(p))]).reshape(shape)
        c.close(got, exp, 'amplitude', 1e-6, 1e-9 * (1 + np.abs(exp).max()))
        c.nontrivial(n_pix, shape, np.asarray(v).dtype)
    c.equal(ff, keep[0], 'amplitude-coefficients')
    c.equal(ped, keep[1], 'amplitude-coefficients')


@group(quick=40, thorough=1500)
def profile(c):
    from CHECLabPy.calib import IlluminationProfile
    n_pix = int(c.rng.choice([1, 64, 2048]))
    coeff = np.round(c.rng.uniform(0.3, 2, n_pix), 6)
    path = c.path('profile.dat')
    cols = ['pixel', 'correction']
    extra = c.rng.random() < 0.3
    with open(path, 'w') as f:
        head = cols + (['error'] if extra else [])
        f.write('\t'.join(head) + '\n')
        for i in range(n_pix):
            rec = [str(i), '{:.6f}'.format(coeff[i])]
            f.write('\t'.join(rec + (['0.5'] if extra else [])) + '\n')
    prof = IlluminationProfile(path)
    image = c.rng.normal(0, 100, n_pix)
    before = image.tobytes()
    c.event('profiles')
    folded, unfolded = prof.fold(image), prof.unfold(image)
    c.close(folded, image * coeff, 'fold', 1e-12)
    c.close(unfolded, image / coeff, 'unfold', 1e-12)
    c.close(prof.unfold(folded), image, 'unfold-fold', 1e-12)
    c.close(prof.fold(unfolded), image, 'fold-unfold', 1e-12)
    c.check(image.tobytes() == before, 'profile-input')
    c.close(prof.fold(coeff * 0 + 1), coeff, 'profile-changed', 1e-12)
    c.nontrivial(n_pix, extra)


@group(quick=2, thorough=2)
def shipped(c):
    import CHECLabPy.calib
    from CHECLabPy.calib import IlluminationProfile
    root = os.path.join(os.path.dirname(CHECLabPy.calib.__file__), 'data',
                        'illumination_profile')
    paths = glob.glob(os.path.join(root, '*'))
    c.check(paths, 'profile-missing')
    for p in paths:
        prof = IlluminationProfile(p)
        c.event('profiles')
        with open(p) as f:
            head = f.readline().rstrip('\n').split('\t')
            i = head.index('correction')
            want = [float(ln.rstrip('\n').split('\t')[i]) for ln in f]
        image = c.rng.uniform(1, 2, 2048)
        if c.check(np.shape(prof.fold(image)) == (2048,), 'profile-shape'):
            c.close(prof.fold(image), image * want, 'profile-shipped')
            c.close(prof.unfold(prof.fold(image)), image, 'profile-shipped')
    c.nontrivial('shipped', len(paths))


@group(quick=40, thorough=2000)
def waveforms(c):
    import target_calib
    from CHECLabPy.calib import WaveformCalibrator
    from CHECLabPy.core.io.waveform import Waveform
    from CHECLabPy.core.io import ReaderR0
    from vlib import files
    n_modules = int(c.rng.choice([1, 4, 32], p=[0.45, 0.45, 0.1]))
    n_pix, n = n_modules * 64, int(c.rng.choice([32, 128]))
    if n_modules == 32:
        c.event('full_cameras')
    run = files.random_run(c.rng, 3 + int(c.rng.integers(1, 5)),
                           camera='9.2.0' if n_modules == 4 else '1.1.0',
                           n_modules=n_modules, n_samples=n, r1=False)
    path = c.path('Run1_r0.tio')
    files.write_tio(path, run)
    reader = ReaderR0(path)
    from_reader = bool(c.rng.random() < 0.5)
    del target_calib.CALLS[:]
    if from_reader:
        cal = WaveformCalibrator.from_tio_reader('/ped.tcal', reader)
        sns = [int(s) for s in run['SN']]
    else:
        sns = None if c.rng.random() < 0.5 else [3, 1, 2]
        cal = WaveformCalibrator('/ped.tcal', n_pix, n, sns)
    c.check(target_calib.CALLS[0][:2] == ('open', '/ped.tcal'),
            'calibrator-path', target_calib.CALLS[:1])
    got_sn = target_calib.CALLS[0][2]
    c.check((None if got_sn is None else [int(s) for s in got_sn]) == sns,
            'calibrator-modules', (got_sn, sns))
    c.check(cal.n_pixels == n_pix and cal.n_samples == n, 'calibrator-size')
    order = [int(i) for i in c.rng.permutation(reader.n_events)]
    previous = None
    for iev in order:
        wf = reader[iev]
        raw = np.array(wf)
        fci = wf.first_cell_id
        if c.rng.random() < 0.3:
            fci = int(c.rng.choice([0, 1, 16383, 40000]))
        del target_calib.CALLS[:]
        out = cal(wf, fci)
        c.event('events_calibrated')
        c.equal(np.asarray(wf), raw, 'raw-changed')
        calls = [k for k in target_calib.CALLS if k[0] == 'apply']
        if c.check(len(calls) == 1, 'calibrator-calls', len(calls)):
            c.equal(calls[0][1], raw, 'calibrator-input')
            c.equal(calls[0][2], np.full(n_pix, fci, np.uint16),
                    'calibrator-cells')
        want = target_calib.expected_calibration(
            raw, np.full(n_pix, fci, np.uint16))
        c.check(out.dtype == np.float32 and out.shape == raw.shape,
                'calibrated-type', (out.dtype, out.shape))
        c.close(np.asarray(out), want, 'calibrated', 1e-6, 1e-5)
        c.check(isinstance(out, Waveform) and out.is_r1 and not wf.is_r1,
                'calibrated-mark', (type(out), getattr(out, 'is_r1', None)))
        c.check(out.iev == iev, 'calibrated-event')
        if previous is not None:  # each result is its own
            c.close(np.asarray(previous[0]), previous[1],
                    'calibrated-changed-later', 1e-6, 1e-5)
        previous = out, want
    c.nontrivial(n_modules, n, from_reader, sns is None)
