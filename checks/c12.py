"""C12: files open with the reader for their content"""
import gzip
import os
import struct

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Files of every kind of content (camera R0/R1, simulation with either
marker, FITS without the camera header, text mentioning FITS, random bytes,
each plain and gzip compressed) under names of every kind are offered to the
reader factory; the class of the reader, refusals, sample types and error
types are compared with the content. Distinct by content, compression, name."""
ASSUMPTIONS = ["stand-ins for target_io, target_calib and ctapipe; FITS "
               "headers are real (astropy)",
               "files have at least 4 bytes"]
REQUIRE = ['readers', 'rejected', 'refusals']
WORKERS = dict(quick=4, thorough=6)
QUICK_FACTOR = 5
NAMES = ['a_r0.tio', 'a_r1.tio', 'a.fits', 'a.simtel.gz', 'a.simtel', 'a',
         'a.gz', 'run.h5', 'b_r1.simtel.gz', 'c_simtel.tio']


def setup():
    import CHECLabPy.core.io  # noqa


def fits_bytes(header):
    import io
    from astropy.io import fits
    p = fits.PrimaryHDU()
    for k, v in header.items():
        p.header[k] = v
    buf = io.BytesIO()
    fits.HDUList([p]).writeto(buf)
    return buf.getvalue()


def write(path, data, compress):
    with open(path, 'wb') as f:
        f.write(gzip.compress(data) if compress else data)


@group(quick=60, thorough=1500)
def contents(c):
    from CHECLabPy.core.io import (WaveformReader, TIOReader, SimtelReader,
                                   ReaderR0, ReaderR1)
    from vlib import files
    kinds = ['r0', 'r1', 'sim0', 'sim1', 'fits', 'text', 'random', 'zero',
             'magic_late', 'header_in_second']
    kind = kinds[c.index % len(kinds)]
    compress = bool(c.rng.random() < 0.5)
    name = str(c.rng.choice(NAMES))
    path = c.path(name)
    c.note(kind=kind, compress=compress, name=name)
    tio = kind in ('r0', 'r1')
    sim = kind in ('sim0', 'sim1')
    if tio:
        run = files.random_run(c.rng, 5, camera='1.1.0', n_modules=1,
                               n_samples=32, r1=kind == 'r1')
        files.write_tio(path, run, compress)
    elif sim:
        files.write_simtel(path, files.random_sim(c.rng, 1, n_samples=32),
                           magic=int(kind[-1]), compress=compress)
    elif kind == 'fits':
        write(path, fits_bytes({'TELESCOP': 'CTA', 'OTHER': 1}), compress)
    elif kind == 'text':
        write(path, b'This text mentions FITS and EVENT_HEADER_VERSION\n'
              * 40, compress)
    elif kind == 'random':
        data = bytearray(c.rng.bytes(int(c.rng.integers(4, 3000))))
        if data[0] == 0x1f:
            data[0] = 0
        write(path, bytes(data), compress)
    elif kind == 'zero':
        write(path, b'\0' * 64, compress)
    elif kind == 'magic_late':
        write(path, b'abcd' + struct.pack('I', files.SIMTEL_MAGIC[0]) * 9,
              compress)
    else:
        from astropy.io import fits
        import io
        buf = io.BytesIO()
        second = fits.ImageHDU(np.zeros(3))
        second.header['EVENT_HEADER_VERSION'] = '1'
        fits.HDUList([fits.PrimaryHDU(), second]).writeto(buf)
        write(path, buf.getvalue(), compress)

    for cls, want in ((TIOReader, tio), (SimtelReader, sim)):
        got = bool(cls.is_compatible(path))
        c.check(got == want, 'is_compatible', lambda: '{}: {}'.format(
            cls.__name__, got))
    max_events = int(c.rng.integers(1, 3)) if c.rng.random() < 0.3 else None
    reader = None
    try:
        reader = WaveformReader.from_path(path, max_events)
    except Exception:
        if tio or sim:
            raise
    if tio or sim:
        c.check(isinstance(reader, TIOReader) == tio
                and isinstance(reader, SimtelReader) == sim, 'wrong-reader',
                type(reader))
        c.event('readers')
        if reader is not None:
            c.check(reader.is_mc == sim, 'is-mc')
            wf = reader[0]
            want = np.uint16 if kind == 'r0' else np.float32
            c.check(wf.dtype == want, 'sample-type', wf.dtype)
            c.check(bool(wf.is_r1) == (kind != 'r0'), 'is-r1')
            if max_events:
                c.check(len(reader) <= max_events, 'limit', len(reader))
    else:
        c.check(reader is None, 'accepted', (kind, type(reader)))
        c.event('rejected')
    if tio:
        good, bad = (ReaderR1, ReaderR0) if kind == 'r1' else (
            ReaderR0, ReaderR1)
        e = c.raises(OSError, lambda: bad(path), 'level-mixed', kind)
        c.check(not isinstance(e, FileNotFoundError), 'level-error', e)
        c.event('refusals')
        wf = good(path)[0]
        c.check(wf.dtype == (np.float32 if kind == 'r1' else np.uint16),
                'sample-type', wf.dtype)
        c.equal(np.asarray(wf), run['waveforms'][2], 'samples')
    c.nontrivial(kind, compress, name)


@group(quick=12, thorough=200)
def replaced(c):
    """Each reader opened is a new one, of what is in the file by then"""
    from CHECLabPy.core.io import WaveformReader, ReaderR0, ReaderR1
    from vlib import files
    rng = c.rng
    path = c.path('file.' + str(rng.choice(['tio', 'dat'])))
    kinds = []
    readers = []
    for i in range(int(rng.integers(2, 5))):
        kind = str(rng.choice(['r0', 'r1']))
        kinds.append(kind)
        run = files.random_run(rng, int(rng.integers(4, 9)), n_modules=1,
                               n_samples=32, r1=kind == 'r1',
                               camera='1.1.0')
        if os.path.exists(path):
            os.remove(path)
        files.write_tio(path, run)
        for max_events in (None, 1):
            reader = WaveformReader.from_path(path, max_events)
            c.event('readers')
            c.check(type(reader) is (ReaderR0 if kind == 'r0' else ReaderR1)
                    or bool(reader[0].is_r1) == (kind == 'r1'),
                    'replaced-level', (kinds, type(reader)))
            c.check(all(reader is not r for r in readers), 'same-reader')
            n = len(run['waveforms']) - 3  # two at the start, one at the end
            c.check(reader.n_events == (1 if max_events else n),
                    'replaced-events', (reader.n_events, n, max_events))
            last = reader.n_events - 1
            c.equal(np.asarray(reader[last]), run['waveforms'][last + 2],
                    'replaced-samples')
            readers.append(reader)
    c.nontrivial(*kinds)


@group(quick=5, thorough=20)
def missing(c):
    from CHECLabPy.core.io import (WaveformReader, TIOReader, SimtelReader,
                                   ReaderR0, ReaderR1)
    path = c.path(NAMES[c.index % len(NAMES)])
    for f in (WaveformReader.from_path, TIOReader, SimtelReader, ReaderR0,
              ReaderR1):
        c.raises(FileNotFoundError, lambda: f(path), 'missing-file', f)
        c.event('refusals')
    c.check(not os.path.exists(path), 'file-created')
    c.nontrivial(os.path.basename(path))
