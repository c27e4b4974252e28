"""C29: amplitude matching against a simulated camera in a closed loop"""
import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """A simulated camera (monotonic response per superpixel, random
targets, starting values, masks in every accepted form, unreachable
superpixels, noise) writes real raw files for the DAC values the matcher
proposes; a monitor follows every proposed value through each iteration until
completion and compares the end with the true crossing point. Distinct by
camera kind, mask form and number of iterations."""
ASSUMPTIONS = ["stand-in for the TARGET libraries",
               """amplitudes never equal the target exactly (they are averages
over noise)"""]
REQUIRE = ['iterations', 'moves', 'returns', 'parked', 'masked', 'finished',
           'converged', 'unreachable']
WORKERS = dict(quick=8, thorough=8)
LIMIT = 800
SCALE = 24.0  # raw counts per mV


class Calibrator:
    """mV from raw counts"""

    def __init__(self, n_pixels, n_samples):
        self.n_pixels, self.n_samples = n_pixels, n_samples

    def __call__(self, waveforms, fci):
        return np.asarray(waveforms).astype(np.float32) / SCALE


class Camera:
    """Amplitude of every superpixel falling with its DAC value"""

    def __init__(self, c, aim):
        rng = c.rng
        self.kind = str(rng.choice(['linear', 'exponential', 'steps']))
        # The DAC value at which the target is reached
        root = rng.uniform(11, 254, 512)
        near = rng.random(512) < 0.5
        root[near] = rng.uniform(80, 140, near.sum())
        out = rng.random(512) < rng.choice([0, 0.05])
        root[out] = rng.choice([-300, 700], out.sum())
        if rng.random() < 0.3:  # crossing at the ends of the range
            root[:4] = [10.4, 11.6, 253.6, 254.4]
        self.root = root
        self.slope = aim * rng.uniform(0.004, 0.02, 512)
        self.aim = aim

    def __call__(self, dac):
        d = self.root - np.asarray(dac, dtype=float)
        if self.kind == 'linear':
            a = self.aim + self.slope * d
            low = 0.3 * self.aim
            a = np.where(a < low, low * np.exp(
                -np.clip(low - a, 0, 1e4) * 1.2 / self.aim), a)
        elif self.kind == 'exponential':
            a = self.aim * np.exp(np.clip(
                self.slope / self.aim * d, -4, 1.5))
        else:  # strongly non-linear, still falling
            a = self.aim * (1 + np.tanh(d / 40) * 0.6 + d * 2e-4)
        return np.clip(a, 0, 2600)


def setup():
    import CHECLabPy.calib  # noqa
    import CHECLabPy.waveform_reducers.average_wf  # noqa


def closed_loop(c, noise, n_events, exact=True):
    from CHECLabPy.calib import AmplitudeMatcher, IlluminationProfile
    from vlib import files
    rng = c.rng
    n_samples = 32
    aim = float(rng.uniform(80, 250))
    camera = Camera(c, aim)
    start = rng.integers(10, 256, 512) if rng.random() < 0.3 else \
        np.full(512, int(rng.choice([10, 60, 100, 180, 255])))
    kwargs = {}
    how = int(rng.integers(3))
    if how == 0:
        start = np.full(512, 100)
    else:
        kwargs['starting_dacs'] = start.reshape((32, 16)) if how == 1 \
            else start.copy()
    mask = rng.random(512) < rng.choice([0, 0.02, 0.3])
    form = ['none', 'superpixels', 'table', 'pixels'][int(rng.integers(4))]
    if form == 'none':
        mask[:] = False
    elif form == 'superpixels':
        kwargs['bad_hv'] = mask.copy()
    elif form == 'table':
        kwargs['bad_hv'] = mask.reshape((32, 16)).copy()
    else:
        kwargs['bad_hv'] = np.repeat(mask, 4)
    coeff = np.ones(2048)
    if rng.random() < 0.5:
        coeff = rng.uniform(0.7, 1.3, 2048).round(6)
        prof_path = c.path('profile.dat')
        with open(prof_path, 'w') as f:
            f.write('pixel\tcorrection\n')
            f.writelines('{}\t{:.6f}\n'.format(*x)
                         for x in enumerate(coeff))
        kwargs['illumination_profile'] = IlluminationProfile(prof_path)
    share = rng.uniform(0.9, 1.1, (512, 4))
    share /= share.mean(1, keepdims=True)
    peak = int(rng.choice([0, n_samples - 1, rng.integers(0, n_samples)]))
    run = files.random_run(rng, n_events + 3, camera='1.1.0', n_modules=32,
                           n_samples=n_samples, r1=False, bad=0)
    run['waveforms'] = np.zeros((n_events + 3, 2048, n_samples), np.uint16)
    path = c.path('Run1_r0.tio')
    events = list(files.served(run))

    def expose(dac):
        amp = (camera(dac)[:, None] * share).ravel() * coeff
        raw = run['waveforms']
        raw[:] = 3
        raw[:, :, peak] = 65000  # events that are never served
        for i in events:
            a = amp + rng.normal(0, noise, 2048) if noise else amp
            raw[i, :, peak] = np.clip(np.rint(a * SCALE), 4, 65000)
        files.write_tio(path, run)
        seen = raw[events, :, peak] / SCALE / coeff
        return seen

    matcher = AmplitudeMatcher(Calibrator(2048, n_samples), aim, **kwargs)
    c.note(kind=camera.kind, aim=aim, mask=form, noise=noise,
           starting=how, profile='illumination_profile' in kwargs)
    dac = start.astype(int)
    previous = dac.copy()
    for it in range(LIMIT):
        seen = expose(dac)
        used = seen[:100]
        res = matcher.process(path)
        c.event('iterations')
        new, pix, finished = res
        if not c.check(np.shape(new) == (32, 16), 'dac-shape', np.shape(new)):
            return
        new = np.asarray(new).ravel().astype(int)
        c.close(pix, used.mean(0), 'pixel-amplitudes', 1e-4, 1e-3)
        if finished:
            c.event('finished')
            c.equal(new, dac, 'final-values', 'values at completion')
            break
        average = used.reshape((-1, 512, 4)).mean((0, 2))
        delta = new - dac
        back = new == previous
        park = new == 255
        bad = (new < 10) | (new > 255)
        c.check(not bad.any(), 'dac-range', lambda: new[bad][:5])
        bad = (np.abs(delta) > 10) & ~back & ~park
        c.check(not bad.any(), 'dac-jump', lambda: (dac[bad][:5],
                                                    new[bad][:5]))
        want = np.sign(average - aim)
        bad = (delta != 0) & ~back & ~park & (np.sign(delta) != want)
        c.check(not bad.any(), 'dac-direction', lambda: (
            average[bad][:5], dac[bad][:5], new[bad][:5], aim))
        if not c.check((new[mask] == 255).all(), 'masked',
                       lambda: (np.flatnonzero(mask)[:5], new[mask][:5])):
            return
        c.event('moves', (delta != 0).sum())
        c.event('returns', (back & (delta != 0)).sum())
        c.event('parked', (park & (dac != 255) & ~mask).sum())
        c.event('masked', mask.sum())
        previous, dac = dac, new
    else:
        c.fail('not-finished', 'after {} iterations'.format(LIMIT))
        return
    c.nontrivial(camera.kind, form, it, noise > 0, how)
    # It stays finished
    again, _, finished = matcher.process(path)
    c.check(finished, 'finished-revoked')
    c.equal(np.asarray(again).ravel(), dac, 'final-values', 'once more')
    if exact:
        reach = (camera.root > 10.1) & (camera.root < 254.9) & ~mask
        c.event('converged', reach.sum())
        c.event('unreachable', (~reach & ~mask).sum())
        # One step, and the raw data are rounded
        bad = reach & (np.abs(dac - camera.root) > 1.2)
        c.check(not bad.any(), 'not-converged', lambda: (
            np.flatnonzero(bad)[:5], dac[bad][:5], camera.root[bad][:5]))


@group(quick=14, thorough=150)
def noiseless(c):
    closed_loop(c, 0, int(c.rng.choice([1, 2, 3])))


@group(quick=5, thorough=60)
def noisy(c):
    closed_loop(c, float(c.rng.choice([1, 10])), int(c.rng.choice([2, 5])),
                exact=False)


@group(quick=3, thorough=30)
def many_events(c):
    """Up to, and more than, the events that are used; amplitudes drift so
    that only all of them together tell the direction"""
    from CHECLabPy.calib import AmplitudeMatcher
    from vlib import files
    rng = c.rng
    n = int(rng.choice([104, 100, rng.integers(65, 105)]))
    run = files.random_run(rng, 3 + n, camera='1.1.0', n_modules=32,
                           n_samples=32, r1=False, bad=0, noise=0)
    aim = float(rng.integers(100, 150))
    used = min(n, 100)
    t = np.arange(n) - (used - 1) / 2
    amp = aim * SCALE + np.repeat(rng.choice([-60, 60, 400, -400], 512), 4) \
        + t[:, None] * np.repeat(rng.choice([-20, 0, 20], 512), 4)
    amp += rng.integers(-20, 20, (n, 2048))
    amp = np.rint(amp).astype(np.uint16)
    amp[:, :80] = aim * SCALE  # exactly at the target
    run['waveforms'][:] = 0
    run['waveforms'][:, :, 5] = 60000  # events that are never served
    events = list(files.served(run))
    run['waveforms'][events[0]:events[0] + n, :, 5] = amp[:len(events)]
    path = c.path('Run1_r0.tio')
    files.write_tio(path, run)
    start = rng.integers(30, 200, 512)
    m = AmplitudeMatcher(Calibrator(2048, 32), aim, starting_dacs=start)
    new, pix, _ = m.process(path)
    c.event('iterations')
    seen = amp[:len(events)][:100] / SCALE
    c.close(pix, seen.mean(0), 'first-events-used', 1e-4, 1e-3)
    delta = np.asarray(new).ravel().astype(int) - start
    average = seen.reshape((-1, 512, 4)).mean((0, 2))
    want = np.sign(average - aim)
    c.event('moves', (delta != 0).sum())
    bad = (np.sign(delta) != want) & ((want == 0) == (np.arange(512) < 20))
    c.check(not bad.any(), 'direction-of-many', lambda: (
        np.flatnonzero(bad)[:5], average[bad][:5], aim, delta[bad][:5]))
    c.nontrivial('many', n)
