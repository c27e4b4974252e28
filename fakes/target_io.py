"""Stand-in for the TARGET IO library (not installable offline)"""
import numpy as np
from astropy.io import fits


class WaveformArrayReader:
    """Reads the files written by vlib.files.write_tio"""

    def __init__(self, path, skip_events=2, skip_end_events=1):
        with fits.open(path) as hdul:
            h = hdul[0].header
            self._wf = np.array(hdul['WAVEFORMS'].data)
            self._ev = {k: np.array(hdul[k].data)
                        for k in ('FCI', 'STALE', 'MISSING', 'TACK', 'CPU_S',
                                  'CPU_NS')}
            self._mod = {k: np.array(hdul[k].data)
                         for k in ('SN', 'TSIPM', 'TPRIM', 'DAC', 'HVON')}
            self.fR1 = bool(h['R1'])
            self.fRunID = int(h['RUN'])
            self.fCameraVersion = str(h['CAMERA'])
            self.fNSuperpixelsPerModule = int(h['NSP'])
            self.fNModules = int(h['NMOD'])
        self._skip = skip_events
        n_total, self.fNPixels, self.fNSamples = self._wf.shape
        self.fNEvents = max(0, n_total - skip_events - skip_end_events)
        self.log = []

    def _get(self, iev, samples):
        if not 0 <= iev < self.fNEvents:
            raise RuntimeError('event {} does not exist'.format(iev))
        self.log.append(int(iev))
        i = iev + self._skip
        samples[:] = self._wf[i]
        return (int(self._ev['FCI'][i]), bool(self._ev['STALE'][i]),
                bool(self._ev['MISSING'][i]), int(self._ev['TACK'][i]),
                int(self._ev['CPU_S'][i]), int(self._ev['CPU_NS'][i]))

    def GetR0Event(self, iev, samples):
        if self.fR1 or samples.dtype != np.uint16:
            raise TypeError('not an R0 event array')
        return self._get(iev, samples)

    def GetR1Event(self, iev, samples):
        if not self.fR1 or samples.dtype != np.float32:
            raise TypeError('not an R1 event array')
        return self._get(iev, samples)

    def _at(self, name, *index):
        # as in the real library, there is no bounds check
        a = self._mod[name]
        if any(not 0 <= i < n for i, n in zip(index, a.shape)):
            return 77
        return a[index]

    def GetSN(self, tm):
        return int(self._at('SN', tm))

    def GetSiPMTemp(self, tm):
        return float(self._at('TSIPM', tm))

    def GetPrimaryTemp(self, tm):
        return float(self._at('TPRIM', tm))

    def GetSPDAC(self, tm, sp):
        return int(self._at('DAC', tm, sp))

    def GetSPHVON(self, tm, sp):
        return int(self._at('HVON', tm, sp))
