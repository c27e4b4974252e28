import numpy as np


def _window(waveforms, peak_index, width, shift):
    waveforms = np.asarray(waveforms)
    n_samples = waveforms.shape[-1]
    peak = np.broadcast_to(np.asarray(peak_index), waveforms.shape[:-1])
    start = (peak - shift)[..., None]
    s = np.arange(n_samples)
    return (s >= start) & (s < start + width)


def sum_samples_around_peak(waveforms, peak_index, width, shift):
    w = _window(waveforms, peak_index, width, shift)
    waveforms = np.asarray(waveforms)
    return np.where(w, waveforms, 0).sum(-1).astype(waveforms.dtype)


def extract_pulse_time_around_peak(waveforms, peak_index, width, shift):
    w = _window(waveforms, peak_index, width, shift)
    waveforms = np.asarray(waveforms)
    weights = np.where(w & (waveforms > 0), waveforms, 0).astype(float)
    den = weights.sum(-1)
    num = (weights * np.arange(waveforms.shape[-1])).sum(-1)
    peak = np.broadcast_to(np.asarray(peak_index), den.shape)
    with np.errstate(all='ignore'):
        return np.where(den > 0, num / den, peak).astype(float)


def neighbor_average_waveform(waveforms, neighbors, lwt):
    waveforms = np.asarray(waveforms)
    sum_ = waveforms * lwt
    n = np.full(waveforms.shape, lwt, dtype=np.int32)
    np.add.at(sum_, neighbors[:, 0], waveforms[neighbors[:, 1]])
    np.add.at(n, neighbors[:, 0], 1)
    return sum_ / n


class LocalPeakWindowSum:
    def __init__(self, window_width=8, window_shift=3):
        self.window_width = window_width
        self.window_shift = window_shift

    def __call__(self, waveforms):
        peak = np.asarray(waveforms).argmax(-1)
        return (
            sum_samples_around_peak(
                waveforms, peak, self.window_width, self.window_shift),
            extract_pulse_time_around_peak(
                waveforms, peak, self.window_width, self.window_shift),
        )


class NeighborPeakWindowSum:
    def __init__(self, window_width=8, window_shift=3, lwt=0):
        self.window_width = window_width
        self.window_shift = window_shift
        self.lwt = lwt
        self.neighbors = None

    def __call__(self, waveforms):
        avg = neighbor_average_waveform(waveforms, self.neighbors, self.lwt)
        peak = avg.argmax(-1)
        return (
            sum_samples_around_peak(
                waveforms, peak, self.window_width, self.window_shift),
            extract_pulse_time_around_peak(
                waveforms, peak, self.window_width, self.window_shift),
        )
