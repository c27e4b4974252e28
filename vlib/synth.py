"""A fitter with a known optimum, as users derive their own from the base"""
import os
import time

import numpy as np

RECORD = []  # (values, lookup) of every evaluation of the likelihood
TARGETS = []  # per illumination {name: (target, width)}
_classes = {}


def lookup_of(lookup, n, names):
    return [{k: int(lookup[i][k]) for k in names} for i in range(n)]


def fitters():
    """Defined on first use: importing CHECLabPy is the check's own step"""
    if _classes:
        return _classes
    from CHECLabPy.core.spectrum_fitter import SpectrumFitter, \
        SpectrumParameter, SpectrumParameterCollection

    class QuadraticFitter(SpectrumFitter):
        """Squared distances from TARGETS; spectra are their own values"""

        def __init__(self, n_illuminations):
            super().__init__(n_illuminations)
            self.parameters = SpectrumParameterCollection([
                SpectrumParameter('a', 1.0, (-5.0, 5.0)),
                SpectrumParameter('lambda_', 0.5, (0.0, 9.0), multi=True),
            ], n_illuminations)
            self.n_bins = 20
            self.range = (0, 10)

        @staticmethod
        def _get_spectra(n_illuminations, data_x, lookup, *values):
            names = list(TARGETS[0])
            return [sum((i + 1) * values[lookup[i][k]] * (j + 1)
                        for j, k in enumerate(names))
                    + np.exp(-(np.asarray(data_x) - 5) ** 2)
                    for i in range(n_illuminations)]

        @staticmethod
        def _get_likelihood(n_illuminations, data_x, data_y, lookup, *values):
            names = list(TARGETS[0])
            table = lookup_of(lookup, n_illuminations, names)
            RECORD.append((tuple(values), table))
            res = 0
            for i in range(n_illuminations):
                for k in names:
                    t, w = TARGETS[i][k]
                    res += ((values[table[i][k]] - t) / w) ** 2
            return res

    class MomentFitter(SpectrumFitter):
        """Mean and spread of the charges; may be delayed (VERIF_DELAY)"""

        def __init__(self, n_illuminations):
            super().__init__(n_illuminations)
            self.parameters = SpectrumParameterCollection([
                SpectrumParameter('spe', 2.0, (0.1, 50.0)),
                SpectrumParameter('eped', 0.5, (-5.0, 5.0), fixed=True),
                SpectrumParameter('lambda_', 1.5, (0.0, 60.0), multi=True),
            ], n_illuminations)
            self.n_bins = 25
            self.range = (-5, 20)

        def apply(self, *charges):
            log = os.environ.get('VERIF_FIT_LOG')
            delay = os.environ.get('VERIF_DELAY')
            if delay:
                # Pseudo-random in the data, so different in every pixel
                part = abs(float(np.sum(charges[0])) * 1e3) % 1
                time.sleep(float(delay) * part)
            super().apply(*charges)
            if log:
                with open('{}.{}'.format(log, os.getpid()), 'a') as f:
                    f.write('{!r} {!r}\n'.format(
                        time.monotonic(), float(np.sum(charges[0]))))

        @staticmethod
        def _get_spectra(n_illuminations, data_x, lookup, *values):
            x = np.asarray(data_x, dtype=float)
            res = []
            for i in range(n_illuminations):
                mean = values[lookup[i]['lambda_']]
                width = values[lookup[i]['spe']]
                res.append(np.exp(-0.5 * ((x - mean) / width) ** 2) / width + 1e-3)
            return res

        @staticmethod
        def _get_likelihood(n_illuminations, data_x, data_y, lookup, *values):
            x = np.asarray(data_x, dtype=float)
            res = 0
            for i in range(n_illuminations):
                y = np.asarray(data_y[i], dtype=float)
                n = max(y.sum(), 1)
                mean = (x * y).sum() / n
                width = np.sqrt(((x - mean) ** 2 * y).sum() / n)
                res += ((values[lookup[i]['lambda_']] - mean) / 0.1) ** 2
                res += ((values[lookup[i]['spe']] - width) / 0.1) ** 2
                res += (values[lookup[i]['eped']]) ** 2
            return res

    for cls in (QuadraticFitter, MomentFitter):
        cls.__module__ = __name__
        cls.__qualname__ = cls.__name__
        globals()[cls.__name__] = cls
        _classes[cls.__name__] = cls
    return _classes
