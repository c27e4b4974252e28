"""Stand-in for the TARGET calibration library (not installable offline)"""
import os

import numpy as np

from vlib import camera

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')

# camera version -> (layout, number of storage cells, reference pulse)
VERSIONS = {
    '1.1.0': ('checs', 16384, 'pulse_a.dat'),
    '1.0.1': ('checs', 4096, 'pulse_b.dat'),
    '9.2.0': ('quad', 8192, 'pulse_b.dat'),
    '9.3.0': ('nine', 2048, 'pulse_a.dat'),
    '9.4.0': ('cross', 1024, 'pulse_a.dat'),
}


class Mapping:
    def __init__(self, cfgfile, single=False):
        name = os.path.splitext(os.path.basename(cfgfile))[0]
        self._name = name
        self._df, self._meta = camera.layout_info(name)
        self._meta['cfgfile'] = cfgfile
        self._meta['is_single_module'] = bool(single)
        for k, v in self._meta.items():
            if k.startswith('fOTUp'):
                setattr(self, k, v)

    def as_dataframe(self):
        return self._df.copy()

    def GetCfgPath(self):
        return self._meta['cfgfile']

    def IsSingleModule(self):
        return self._meta['is_single_module']

    def GetNPixels(self):
        return self._meta['n_pixels']

    def GetNModules(self):
        return self._meta['n_modules']

    def GetNTMPix(self):
        return self._meta['n_tmpix']

    def GetNSuperPixels(self):
        return self._meta['n_superpixels']

    def GetNRows(self):
        return self._meta['n_rows']

    def GetNColumns(self):
        return self._meta['n_columns']

    def GetSize(self):
        return self._meta['size']


class CameraConfiguration:
    def __init__(self, version):
        if version not in VERSIONS:
            raise KeyError('unknown camera version {}'.format(version))
        self._version = version
        self._layout, self._n_cells, self._pulse = VERSIONS[version]

    def GetMapping(self, singleModule=False):
        name = 'module' if singleModule else self._layout
        return Mapping('/cfg/{}.cfg'.format(name), singleModule)

    def GetNCells(self):
        return self._n_cells

    def GetVersion(self):
        return self._version

    def GetReferencePulsePath(self):
        return os.path.join(DATA, self._pulse)


CALLS = []  # what the calibrators were given


class Calibrator:
    """(sample - pedestal[pixel, storage cell]) * gain[pixel]"""

    def __init__(self, path, sn_list=None):
        self.path = path
        self.sn_list = None if sn_list is None else list(sn_list)
        CALLS.append(('open', path, self.sn_list))
        self.pedestal = None

    def ApplyEvent(self, waveforms, fci, out):
        if fci.dtype != np.uint16 or fci.shape != (waveforms.shape[0],):
            raise TypeError('fci must be one uint16 per pixel')
        if out.dtype != np.float32 or out.shape != waveforms.shape:
            raise TypeError('output must be float32 of the input shape')
        if waveforms.dtype != np.uint16:
            raise TypeError('input must be uint16')
        CALLS.append(('apply', np.array(waveforms), np.array(fci)))
        n_pixels, n_samples = waveforms.shape
        out[:] = expected_calibration(np.asarray(waveforms), fci)


class CalibratorMultiFile(Calibrator):
    def __init__(self, path, sn_list):
        super().__init__(path, sn_list)


def expected_calibration(waveforms, fci):
    n_pixels, n_samples = waveforms.shape
    pix = np.arange(n_pixels)[:, None]
    cell = (fci.astype(int)[:, None] + np.arange(n_samples)[None]) % 16384
    pedestal = 500 + (pix * 7 + cell * 13) % 101
    gain = 0.2 + 0.001 * (pix % 17)
    return ((waveforms.astype(float) - pedestal) * gain).astype(np.float32)
