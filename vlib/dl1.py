"""Runs the real DL1 extraction on generated files and models its outcome"""
import os
import sys

import numpy as np

from vlib import files, h5, ref

SIM_VERSION = '1.1.0'


def t_cor():
    """The shipped timing corrections, read independently"""
    import CHECLabPy.calib
    path = os.path.join(os.path.dirname(CHECLabPy.calib.__file__), 'data',
                        'time_correction.dat')
    with open(path) as f:
        head = f.readline().rstrip('\n').split('\t')
        i = head.index('t_cor')
        return np.array([float(line.split('\t')[i]) for line in f])


def run_script(module, argv):
    """module.main() with the given command line"""
    saved = sys.argv
    sys.argv = ['script'] + [str(a) for a in argv]
    try:
        module.main()
    finally:
        sys.argv = saved


def extract(path, out=None, config=None, max_events=None, scale=1):
    """Reduce a file as the extract_dl1 executable does"""
    from CHECLabPy.scripts import extract_dl1
    argv = ['-f', path]
    if out:
        argv += ['-o', out]
    if config:
        argv += ['-c', config]
    if max_events:
        argv += ['-n', max_events]
    with h5.FlushSchedule() as sched:
        sched.scale = scale
        run_script(extract_dl1, argv)
    return sched


def flush_scale(rng, n_pixels, n_columns=25):
    """scale so that the 0.5 GB threshold is reached after 1..8 events"""
    size = n_pixels * n_columns * 8
    what = int(rng.integers(4))
    if what == 0:
        return 'never', 1
    every = int(rng.integers(1, 9))
    return 'every~{}'.format(every), 0.5e9 / (size * every)


class ExpectedTIO:
    """What the DL1 file of a camera run must contain"""

    def __init__(self, run, max_events=None):
        self.run = run
        idx = list(files.served(run))
        if max_events and max_events < len(idx):
            idx = idx[:max_events]
        self.n_read = len(idx)
        self.events = [(iev, i) for iev, i in enumerate(idx)
                       if not run['STALE'][i] and not run['MISSING'][i]]
        self.index = idx

    @property
    def ievs(self):
        return [e[0] for e in self.events]

    def t_cpu(self, i):
        return np.datetime64(int(self.run['CPU_S'][i]) * 10 ** 9
                             + int(self.run['CPU_NS'][i]), 'ns')

    def waveforms(self, cor):
        """(iev, index, calibrated and baseline subtracted, baseline)"""
        raw = self.run['waveforms']
        base = ref.RollingBaseline([raw[i] for i in self.index])
        for iev, i in self.events:
            wf = ref.time_calibrate(raw[i], cor)
            b = base.update(wf)
            yield iev, i, wf - b[:, None], b


class ExpectedSim:
    def __init__(self, sim, max_events=None):
        from vlib.camera import layout_info
        self.sim = sim
        n = len(sim['gps'])
        self.n_read = min(n, max_events) if max_events else n
        self.events = [(i, i) for i in range(self.n_read)]
        order = np.asarray(sim['order'])
        # simulation pixel j sits at mapping pixel order[j]
        self.pick = np.argsort(order)

    @property
    def ievs(self):
        return [e[0] for e in self.events]

    def mc_true(self, i):
        return self.sim['mc_true'][i][self.pick]

    def waveforms(self):
        raw = self.sim['waveforms'][:, self.pick]
        base = ref.RollingBaseline([raw[i] for i in range(self.n_read)])
        for iev, i in self.events:
            b = base.update(raw[i])
            yield iev, i, raw[i].astype(np.float64) - b[:, None], b


def check_rows(c, df, ievs, n_pixels, mech='rows'):
    """One row per event and pixel, in event and pixel order"""
    ok = c.check(len(df) == len(ievs) * n_pixels, mech + '-number',
                 lambda: '{} rows for {} events of {} pixels'.format(
                     len(df), len(ievs), n_pixels))
    if not ok:
        return False
    c.event('rows', len(df))
    a = c.equal(df['iev'].values, np.repeat(ievs, n_pixels), mech + '-events',
                'iev')
    b = c.equal(df['pixel'].values, np.tile(np.arange(n_pixels), len(ievs)),
                mech + '-pixels', 'pixel')
    return a and b
