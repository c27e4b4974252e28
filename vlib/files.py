"""Input files for the readers: real FITS files for camera data, files with
the simtel marker for simulations.  The stand-in libraries read them back."""
import gzip
import io
import struct

import numpy as np

SIMTEL_MAGIC = (3558836791, 931798996)


def pulse_shape(t, t0, width=3.0, tail=6.0):
    """Smooth asymmetric pulse with its maximum of 1 at t0 (samples)"""
    d = np.asarray(t, dtype=float) - t0
    return np.where(d < 0, np.exp(-0.5 * (d / width) ** 2),
                    1 / np.cosh(d / tail) ** 2)


def random_waveforms(rng, n_events, n_pixels, n_samples, r1=True, noise=1.0,
                     max_charge=200):
    """Events with a common pulse time, per-pixel amplitude and baseline"""
    t = np.arange(n_samples)
    wf = np.empty((n_events, n_pixels, n_samples), dtype=np.float32)
    base = rng.normal(0 if r1 else 600, 3, (n_pixels, 1))
    for i in range(n_events):
        t0 = rng.uniform(12, n_samples - 12)
        jitter = rng.normal(0, 0.7, (n_pixels, 1))
        amp = rng.exponential(max_charge / 4, (n_pixels, 1)).clip(
            0, max_charge) * rng.choice([0.1, 1, 3])
        wf[i] = (amp * pulse_shape(t, t0 + jitter)
                 + base + rng.normal(0, 0.4)
                 + rng.normal(0, noise, (n_pixels, n_samples)))
    if not r1:
        return np.clip(np.rint(wf), 0, 4095).astype(np.uint16)
    return wf


def random_run(rng, n_events, camera='9.2.0', n_modules=4, n_samples=128,
               r1=True, bad=0.15, **kwargs):
    """The content of a camera file (n_events incl. the 3 never served)"""
    n_pixels = n_modules * 64
    return dict(
        waveforms=random_waveforms(rng, n_events, n_pixels, n_samples, r1,
                                   **kwargs),
        FCI=rng.integers(0, 16384, n_events),
        STALE=(rng.random(n_events) < bad).astype(np.int16),
        MISSING=(rng.random(n_events) < bad).astype(np.int16),
        TACK=np.cumsum(rng.integers(1, 10 ** 15, n_events)),
        CPU_S=1.5e9 + np.cumsum(rng.integers(0, 3, n_events)),
        CPU_NS=rng.integers(0, 10 ** 9, n_events),
        SN=rng.permutation(200)[:n_modules],
        TSIPM=rng.uniform(10, 40, n_modules),
        TPRIM=rng.uniform(10, 40, n_modules),
        DAC=rng.integers(0, 256, (n_modules, 16)),
        HVON=rng.integers(0, 2, (n_modules, 16)),
        run=int(rng.integers(1, 10 ** 6)), r1=r1, camera=camera,
        n_modules=n_modules, n_sp=16,
    )


def write_tio(path, run, compress=False):
    from astropy.io import fits
    primary = fits.PrimaryHDU()
    h = primary.header
    h['TELESCOP'] = 'FITS stand-in'
    h['EVENT_HEADER_VERSION'] = '0.1.0'
    h['R1'] = bool(run['r1'])
    h['RUN'] = run['run']
    h['CAMERA'] = run['camera']
    h['NSP'] = run['n_sp']
    h['NMOD'] = run['n_modules']
    hdus = [primary, fits.ImageHDU(run['waveforms'], name='WAVEFORMS')]
    for k in ('FCI', 'TACK', 'CPU_S', 'CPU_NS', 'SN', 'DAC', 'HVON'):
        hdus.append(fits.ImageHDU(np.asarray(run[k]).astype(np.int64),
                                  name=k))
    for k in ('STALE', 'MISSING'):
        hdus.append(fits.ImageHDU(np.asarray(run[k]).astype(np.int16),
                                  name=k))
    for k in ('TSIPM', 'TPRIM'):
        hdus.append(fits.ImageHDU(np.asarray(run[k]).astype(np.float64),
                                  name=k))
    buf = io.BytesIO()
    fits.HDUList(hdus).writeto(buf)
    data = buf.getvalue()
    with open(path, 'wb') as f:
        f.write(gzip.compress(data, 1) if compress else data)


def served(run):
    """Indices of the events the reader serves (2 skipped, 1 at the end)"""
    return range(2, len(run['FCI']) - 1)


def random_sim(rng, n_events, n_samples=128, order=None, tel=None):
    from vlib.camera import layout_info
    df, meta = layout_info('checs')
    n_pixels = len(df)
    if order is None:
        order = rng.permutation(n_pixels)
    # pixel j of the simulation sits where pixel order[j] of the mapping is
    x = df['xpix'].values[order]
    y = df['ypix'].values[order]
    from ctapipe.io import MC, POINTING, MCHEADER
    mc_true = rng.poisson(5, (n_events, n_pixels))
    what = rng.random()
    if what < 0.5:  # events in which no pixel was hit
        mc_true[rng.random(n_events) < 0.4] = 0
    elif what < 0.6:
        mc_true[0] = 0
    elif what < 0.7:
        mc_true[:] = 0
    return dict(
        waveforms=random_waveforms(rng, n_events, n_pixels, n_samples),
        mc_true=mc_true,
        # camera frame: the engineering frame is (y, -x) for two mirrors
        cam_x=-y, cam_y=x, order=np.asarray(order),
        tel=int(rng.integers(1, 100)) if tel is None else tel,
        obs_id=int(rng.integers(1, 10 ** 5)),
        gps=1.5e9 + np.cumsum(rng.uniform(0.1, 5, n_events)),
        primary=rng.integers(0, 15, n_events),
        header=rng.uniform(1, 100, len(MCHEADER)).round(3),
        **{k: rng.uniform(0.1, 10, n_events) for k in MC + POINTING},
    )


def write_simtel(path, sim, magic=0, compress=True):
    buf = io.BytesIO()
    buf.write(struct.pack('I', SIMTEL_MAGIC[magic]))
    np.savez(buf2 := io.BytesIO(), **sim)
    buf.write(buf2.getvalue())
    data = buf.getvalue()
    with open(path, 'wb') as f:
        f.write(gzip.compress(data, 1) if compress else data)


def read_simtel(path):
    with open(path, 'rb') as f:
        data = f.read()
    if data[:2] == b'\x1f\x8b':
        data = gzip.decompress(data)
    with np.load(io.BytesIO(data[4:])) as z:
        return {k: z[k] for k in z.files}
