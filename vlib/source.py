"""In-memory waveform sources (what the utilities need of a reader)"""
import numpy as np


class Source:
    def __init__(self, waveforms):
        from CHECLabPy.core.io.waveform import Waveform
        self._wf = np.asarray(waveforms)
        self._cls = Waveform
        self.n_events, self.n_pixels, self.n_samples = self._wf.shape
        self.served = 0

    def __len__(self):
        return self.n_events

    def __iter__(self):
        for i in range(self.n_events):
            self.served += 1
            yield self._cls(self._wf[i].copy(), iev=i, is_r1=True)

    def __getitem__(self, i):
        return self._cls(self._wf[i].copy(), iev=i, is_r1=True)


def reader_or_source(c, wfs):
    """The events in memory or through the real reader of a real file"""
    if c.rng.random() < 0.5 or wfs.shape[1] != 64 or wfs.shape[2] != 128:
        return 'memory', Source(wfs)
    from CHECLabPy.core.io import ReaderR1
    from vlib import files
    n = len(wfs)
    run = files.random_run(c.rng, n + 3, camera='1.1.0', n_modules=1)
    run['waveforms'][:] = 0
    for k, i in enumerate(files.served(run)):
        run['waveforms'][i] = wfs[k]
    path = c.path('Run1_r1.tio')
    files.write_tio(path, run)
    return 'file', ReaderR1(path)
