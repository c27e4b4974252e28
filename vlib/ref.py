"""Reference definitions of the extracted columns, in double precision and
written from their documentation, independent of /repo."""
import numpy as np


def common(wf):
    wf = np.asarray(wf, dtype=np.float64)
    return dict(
        baseline_start_mean=wf[:, :20].mean(1),
        baseline_start_rms=wf[:, :20].std(1),
        baseline_end_mean=wf[:, -20:].mean(1),
        baseline_end_rms=wf[:, -20:].std(1),
        waveform_mean=wf.mean(1), waveform_rms=wf.std(1),
        waveform_max=wf.max(1),
    )


def clip_event_time(t, n_samples):
    return min(max(int(t), 10), n_samples - 10)


def near_max(v, eps):
    """Indices at which v is its maximum up to rounding"""
    return np.flatnonzero(v >= v.max() - eps)


def event_times(wf, eps=None):
    """Admissible event times: sample of the maximum of the average"""
    wf = np.asarray(wf, dtype=np.float64)
    avg = wf.mean(0)
    eps = 1e-5 * (np.abs(wf).max() + 1e-30) if eps is None else eps
    return sorted({clip_event_time(t, wf.shape[1])
                   for t in near_max(avg, eps)})


def window_sum(wf, start, stop):
    """Sum over the samples of start..stop-1 that exist"""
    n = wf.shape[1]
    start, stop = max(int(start), 0), min(max(int(stop), 0), n)
    if stop <= start:
        return np.zeros(wf.shape[0])
    return np.asarray(wf, dtype=np.float64)[:, start:stop].sum(1)


class Pulse:
    """Reference pulse sampled every ns, and the charge calibration"""

    def __init__(self, path):
        from scipy.interpolate import interp1d
        t, a = np.loadtxt(path).T
        f = interp1d(t, a, kind='cubic')
        n = int(t[-1] / 1e-9) + 1
        y = f(np.arange(n) * 1e-9)
        self.peak = int(y.argmax())
        self.unit = y / np.trapz(y)  # unit area
        self.weights = y / np.dot(self.unit, y)  # unit charge
        self.n = n

    def correlate(self, wf):
        """cc[s] = sum over the pulse placed with its maximum at s"""
        wf = np.asarray(wf, dtype=np.float64)
        n_samples = wf.shape[1]
        cc = np.zeros(wf.shape)
        for k in range(self.n):
            shift = k - self.peak  # sample s+shift has weight k
            lo, hi = max(0, -shift), min(n_samples, n_samples - shift)
            if hi > lo:
                cc[:, lo:hi] += self.weights[k] * wf[:, lo + shift:hi + shift]
        return cc


def peak_time(y, i):
    """Vertex of the parabola through samples i-1, i, i+1; where there is
    none the sample itself"""
    n = y.size
    if i < 1 or i > n - 2:
        return float(i)
    a, b, c = (float(v) for v in y[i - 1:i + 2])
    d = a - 2 * b + c
    if d == 0:
        return float(i)
    t = i + 0.5 * (a - c) / d
    return t if 0 <= t < n else float(i)


def neighbour_average(wf, matrix):
    m = matrix.astype(np.float64)
    return m @ np.asarray(wf, np.float64) / m.sum(1)[:, None]


def time_calibrate(wf, t_cor):
    """Linear interpolation at (sample - correction), end segments extended"""
    wf = np.asarray(wf, dtype=np.float64)
    n_pix, n = wf.shape
    x = np.arange(n)[None] - np.asarray(t_cor, np.float64)[:n_pix, None]
    i = np.clip(np.floor(x).astype(int), 0, n - 2)
    y1 = np.take_along_axis(wf, i, 1)
    y2 = np.take_along_axis(wf, i + 1, 1)
    return y1 + (y2 - y1) * (x - i)


class RollingBaseline:
    """Mean of the leading samples over the last n_base events; before there
    are as many, the first events of the file stand in for the history"""

    def __init__(self, first_events, n_base=50, n_samples=16):
        self.n_samples = n_samples
        self.hist = [np.asarray(w, np.float64)[:, :n_samples]
                     for w in first_events[:n_base]]
        self.i = 0

    def update(self, wf):
        self.hist[self.i % len(self.hist)] = np.asarray(
            wf, np.float64)[:, :self.n_samples]
        self.i += 1
        return np.mean(self.hist, axis=(0, 2))
