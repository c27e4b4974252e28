"""C30: pixel masks survive saving, loading and merging"""
import datetime
import glob
import os
import shutil

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Random mask files (column orders, extra columns, partly bad
superpixels) are loaded, merged and replaced in random histories and compared
with boolean arithmetic; histories of commits at simulated times in a scratch
copy of the data directory are loaded back, by name and as the latest file.
Distinct by history."""
ASSUMPTIONS = ["of several commits in a minute the last one counts, as the file\nnames say"]
REQUIRE = ['files_loaded', 'merges', 'replacements', 'commits', 'defaults',
           'conversions', 'shipped']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 5


def setup():
    import CHECLabPy.calib  # noqa


class Clock(datetime.datetime):
    current = datetime.datetime(2026, 1, 1)

    @classmethod
    def now(cls, tz=None):
        return cls.current


class Redirect:
    """The package's data directory replaced by a scratch copy"""

    def __init__(self, c):
        import CHECLabPy.calib as pkg
        from CHECLabPy.calib import pixel_masks as mod
        self.mod, self.pkg, self.c = mod, pkg, c
        self.real = os.path.join(os.path.dirname(pkg.__file__), 'data')
        self.root = c.path('data')
        shutil.copytree(os.path.join(self.real, 'pixel_masks'),
                        os.path.join(self.root, 'pixel_masks'))
        self.saved = []
        self.clock = False

    def _set(self, module, name, value):
        self.saved.append((module, name, getattr(module, name)))
        setattr(module, name, value)

    def __enter__(self):
        def data(fn):
            return os.path.join(self.root, fn)
        for module in (self.mod, self.pkg):
            if hasattr(module, 'get_calib_data'):
                self._set(module, 'get_calib_data', data)
        if isinstance(getattr(self.mod, 'datetime', None), type):
            self._set(self.mod, 'datetime', Clock)
            self.clock = True
        self.before = self.listing()
        return self

    def listing(self):
        return set(glob.glob(os.path.join(self.real, '*', '*')))

    def __exit__(self, *args):
        for module, name, value in self.saved:
            setattr(module, name, value)
        for path in self.listing() - self.before:  # escaped the redirection
            os.remove(path)


def random_masks(rng):
    p = rng.choice([0, 0.002, 0.05, 0.5, 1])
    return dict(dead=rng.random(2048) < p,
                low=rng.random(2048) < rng.choice([0, 0.01, 0.3]),
                bad_hv=rng.random(512) < rng.choice([0, 0.01, 0.2, 1]))


def write_masks(path, masks, rng):
    """A mask file; superpixels are bad through at least one of 4 pixels"""
    hv = np.repeat(masks['bad_hv'], 4)
    partial = rng.random() < 0.5
    if partial:
        part = rng.random((512, 4)) < 0.5
        part[np.arange(512), rng.integers(0, 4, 512)] = True
        hv = hv & part.ravel()
    cols = dict(pixel=np.arange(2048), dead=masks['dead'], low=masks['low'],
                bad_hv=hv)
    if rng.random() < 0.3:
        cols['comment'] = np.array(['x'] * 2048)
    names = [str(x) for x in rng.permutation(list(cols))] \
        if rng.random() < 0.6 else list(cols)
    with open(path, 'w') as f:
        f.write('\t'.join(names) + '\n')
        f.writelines('\t'.join(str(cols[k][i]) for k in names) + '\n'
                     for i in range(2048))
    return partial


def same(c, masks, want, mech):
    for k in ('dead', 'low', 'bad_hv'):
        got = np.asarray(getattr(masks, k))
        c.check(got.dtype == bool, mech + '-type', (k, got.dtype))
        c.equal(got, want[k], mech, k)
    c.equal(np.asarray(masks.all_mask),
            want['dead'] | want['low'] | np.repeat(want['bad_hv'], 4),
            'combined', mech)


@group(quick=40, thorough=1500)
def loading(c):
    from CHECLabPy.calib import PixelMasks
    model = random_masks(c.rng)
    path = c.path('m0.dat')
    partial = write_masks(path, model, c.rng)
    masks = PixelMasks(path)
    c.event('files_loaded')
    same(c, masks, model, 'loaded')
    other = PixelMasks(path)
    load = getattr(masks, '_load_file', None)
    history = ''
    for i in range(int(c.rng.integers(0, 5)) if load else 0):
        new = random_masks(c.rng)
        path = c.path('m{}.dat'.format(i + 1))
        write_masks(path, new, c.rng)
        merge = bool(c.rng.random() < 0.6)
        load(path=path, merge=merge)
        if merge:
            model = {k: model[k] | new[k] for k in model}
            c.event('merges')
        else:
            model = new
            c.event('replacements')
        history += 'RM'[merge]
        same(c, masks, model, 'merged' if merge else 'replaced')
    if not history:
        same(c, other, model, 'loaded')
    c.note(history=history, partial=partial)
    c.nontrivial(history, partial)


@group(quick=25, thorough=800)
def committing(c):
    from CHECLabPy.calib import PixelMasks
    with Redirect(c) as r:
        t = datetime.datetime(2026, 1, 1) + datetime.timedelta(
            minutes=int(c.rng.integers(0, 10 * 365 * 1440)))
        committed = []
        for i in range(int(c.rng.integers(1, 6))):
            if r.clock:
                t += datetime.timedelta(minutes=int(
                    c.rng.choice([0, 1, 7, 70, 250, 500, 1500, 45000,
                                  700000])))
                Clock.current = t
            source = c.path('src{}.dat'.format(i))
            want = random_masks(c.rng)
            write_masks(source, want, c.rng)
            masks = PixelMasks(source)
            if c.rng.random() < 0.5:  # masks set by the user
                px = PixelMasks.convert_module_to_pixels([3])
                masks.dead[px] = True
                want['dead'][3 * 64:4 * 64] = True
            listing = set(os.listdir(os.path.join(r.root, 'pixel_masks')))
            masks.commit()
            c.event('commits')
            same(c, masks, want, 'changed-by-commit')
            new = set(os.listdir(os.path.join(r.root, 'pixel_masks')))
            if r.listing() - r.before:
                c.event("defaults")  # not redirectable, nothing to say
                return
            c.check(listing <= new, 'commit-removed')
            if r.clock and (i == 0 or t != before):
                c.check(len(new - listing) == 1, 'commit-file',
                        sorted(new - listing))
            elif r.clock:  # again within the minute: the last one counts
                c.event('again')
                committed.pop()
            before = t
            committed.append((new - listing, want))
            latest = PixelMasks()
            c.event('defaults')
            same(c, latest, want, 'latest')
        if r.clock:
            for names, want in committed:
                for n in names:
                    same(c, PixelMasks(os.path.join(
                        r.root, 'pixel_masks', n)), want, 'committed')
                    c.event('files_loaded')
    c.note(start=t, n=len(committed))
    c.nontrivial(t.year, t.month, len(committed))


@group(quick=30, thorough=2000)
def conversion(c):
    from CHECLabPy.calib import PixelMasks
    for _ in range(5):
        n = int(c.rng.integers(1, 20))
        twice = bool(c.rng.random() < 0.3)
        sp = c.rng.choice(512, n, replace=twice)
        tm = c.rng.choice(32, min(n, 32), replace=twice)
        if twice and n > 1:
            sp[-1], tm[-1] = sp[0], tm[0]
        if c.rng.random() < 0.4:
            sp, tm = sp.tolist(), tm.tolist()
        c.event('conversions')
        got = np.asarray(PixelMasks.convert_superpixels_to_pixels(sp))
        c.equal(np.sort(got), np.sort([s * 4 + i for s in sp
                                       for i in range(4)]), 'superpixels')
        c.equal(got.reshape((len(sp), -1)) // 4, np.repeat(sp, 4).reshape(
            (-1, 4)), 'superpixels-order')
        got = np.asarray(PixelMasks.convert_module_to_pixels(tm))
        c.equal(np.sort(got), np.sort([s * 64 + i for s in tm
                                       for i in range(64)]), 'modules')
        c.equal(got.reshape((len(tm), -1)) // 64, np.repeat(tm, 64).reshape(
            (-1, 64)), 'modules-order')
        c.nontrivial(n, type(sp).__name__)


@group(quick=1, thorough=1)
def shipped(c):
    import CHECLabPy.calib as pkg
    from CHECLabPy.calib import PixelMasks
    paths = sorted(glob.glob(os.path.join(
        os.path.dirname(pkg.__file__), 'data', 'pixel_masks', '*.dat')))
    c.check(paths, 'shipped-missing')
    last = None
    for p in paths:
        with open(p) as f:
            head = f.readline().rstrip('\n').split('\t')
            rows = [dict(zip(head, ln.rstrip('\n').split('\t'))) for ln in f]
        flag = {k: np.array([r[k] == 'True' for r in rows])
                for k in ('dead', 'low', 'bad_hv')}
        flag['bad_hv'] = flag['bad_hv'].reshape((512, 4)).any(1)
        same(c, PixelMasks(p), flag, 'shipped')
        c.event('shipped')
        last = flag
    same(c, PixelMasks(), last, 'latest')
    c.nontrivial('shipped')
