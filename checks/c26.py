"""C26: run lists, file sorting and HV files are read faithfully"""
import os
import re

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
RULE = """Names with numbers of any length, run lists with comments and any
order, HV files with shuffled, repeated and unrelated lines and missing modules
are generated from known values and read by the real functions; data files
beside the run lists are opened by the real readers. Distinct by content."""
ASSUMPTIONS = ["stand-in for target_io behind the opened readers"]
REQUIRE = ['names_sorted', 'runs', 'hv_values', 'readers_opened',
           'directories']
WORKERS = dict(quick=4, thorough=8)
QUICK_FACTOR = 5


def setup():
    import CHECLabPy.utils.files  # noqa
    import CHECLabPy.core.io  # noqa


def human(name):
    """Independent natural order: digits as numbers, text as text"""
    out, num = [], None
    for ch in name:
        if '0' <= ch <= '9':
            num = (num or 0) * 10 + int(ch)
        else:
            if num is not None:
                out.append((0, num, ''))
                num = None
            out.append((1, 0, ch))
    if num is not None:
        out.append((0, num, ''))
    return out


@group(quick=120, thorough=6000)
def sorting(c):
    from CHECLabPy.utils.files import sort_file_list, natural_keys
    stem = str(c.rng.choice(['Run', '/data/d2019/Run', '', 'x_', 'd19']))
    end = str(c.rng.choice(['', '.tio', '_r1.tio', '_tmp.h5']))
    n = int(c.rng.integers(0, 30))
    nums = c.rng.choice([3, 12, 10 ** 6, 10 ** 19], n).astype(object)
    nums = [int(c.rng.integers(0, min(int(x), 2 ** 62))) for x in nums]
    if c.rng.random() < 0.2:  # time stamps, apart by their last digits
        base = 10 ** int(c.rng.choice([17, 20, 24]))
        nums = [base + k % 50 for k in nums]
    pad = int(c.rng.choice([0, 0, 5]))
    names = ['{}{:0{}d}{}'.format(stem, k, pad, end) for k in nums]
    if c.rng.random() < 0.4:  # two numbers
        names = ['{}_M{}'.format(x, int(c.rng.integers(0, 33)))
                 for x in names]
    if c.rng.random() < 0.2:
        names += names[:3]
    if c.rng.random() < 0.3:  # several directories
        names = [str(c.rng.choice(['run10/', 'run9/', 'a/b2/', 'a/b11/c/']))
                 + x.replace('/', '_') for x in names]
    given = list(names)
    got = sort_file_list(given)
    c.event('names_sorted', len(names))
    c.check(sorted(got) == sorted(names), 'names-lost')
    keys = [[int(x) if x.isdigit() else x for x in re.findall(r'\d+|\D+', g)]
            for g in got]
    c.check(all(human(a) <= human(b) for a, b in zip(got, got[1:])),
            'not-sorted', got)
    c.check(keys == sorted(keys), 'not-sorted', got)
    c.check(sorted(names, key=natural_keys) == got, 'natural-keys')
    c.nontrivial(stem, end, n, pad)


def runlist(c, path, runs, extra=True):
    cols = dict(
        attenuation=[round(float(x), 3) for x in c.rng.uniform(0, 10,
                                                               len(runs))],
        illumination=[round(float(x), 2) for x in c.rng.uniform(0, 900,
                                                                len(runs))],
        n_events=[int(x) for x in c.rng.integers(1, 10 ** 6, len(runs))],
        fw=[int(x) for x in c.rng.integers(0, 4096, len(runs))])
    return cols


@group(quick=60, thorough=2500)
def runlists(c):
    from CHECLabPy.utils import files
    n = int(c.rng.integers(1, 15))
    runs = [int(x) for x in c.rng.permutation(
        c.rng.choice([20, 99999, 123456])
    )[:n]]
    cols = runlist(c, None, runs)
    sub = c.path('sub dir')
    os.makedirs(sub)
    path = os.path.join(sub, 'runlist.txt')
    names = list(cols)
    if c.rng.random() < 0.5:
        names = [str(x) for x in c.rng.permutation(names)]
    with open(path, 'w') as f:
        if c.rng.random() < 0.3:
            f.write('# produced by hand\n')
        f.write(' '.join(['run'] + names) + '\n')
        for i, r in enumerate(runs):
            if c.rng.random() < 0.2:
                f.write('#{} 1 2 3 4\n'.format(r + 1))
            f.write(' '.join(str(x) for x in [r] + [
                cols[k][i] for k in names]))
            f.write('\n')
    df = files.read_runlist(path)
    c.event('runs', n)
    c.equal(np.asarray(df.index), runs, 'runlist-runs')
    for k in names:
        c.close(df[k].values, cols[k], 'runlist-values', 1e-9, 0, k)
    c.note(runs=runs)
    for func, suffix in ((files.open_runlist_r1, 'r1.tio'),
                         (files.open_runlist_dl1, 'dl1.h5')):
        d = func(path, open_readers=False)
        c.equal(np.asarray(d.index), runs, 'open-runs')
        want = [os.path.join(sub, 'Run{:05d}_{}'.format(r, suffix))
                for r in runs]
        c.check(list(d['path']) == want, 'open-paths',
                lambda: list(d['path'])[:3])
        c.check('reader' not in d.columns, 'open-unasked')
        for k in names:
            c.close(d[k].values, cols[k], 'open-values', 1e-9, 0, k)
    # The older format without a header
    old = os.path.join(sub, 'old.txt')
    with open(old, 'w') as f:
        f.write('# run att ill n fw\n')
        for i, r in enumerate(runs):
            f.write('{} {} {} {} {}\n'.format(
                r, cols['attenuation'][i], cols['illumination'][i],
                cols['n_events'][i], '{:04d}'.format(cols['fw'][i])))
    df = files.read_runlist_old(old)
    c.equal(np.asarray(df.index), runs, 'old-runs')
    c.close(df['attenuation'].values, cols['attenuation'], 'old-values', 1e-5)
    c.close(df['illumination'].values, cols['illumination'], 'old-values',
            1e-5)
    c.equal(df['n_events'].values, cols['n_events'], 'old-values')
    c.check(list(df['fw']) == ['{:04d}'.format(x) for x in cols['fw']],
            'old-strings', list(df['fw'])[:3])
    c.nontrivial(n, runs[0])


@group(quick=12, thorough=300)
def opened(c):
    """Opening a run list gives the reader of each run"""
    from CHECLabPy.utils import files as F
    from CHECLabPy.core.io import HDF5Writer
    from vlib import files
    runs = [int(x) for x in c.rng.permutation(90)[:3]]
    content = {}
    for r in runs:
        run = files.random_run(c.rng, int(c.rng.integers(4, 8)),
                               camera='1.1.0', n_modules=1, n_samples=32)
        run['run'] = r
        content[r] = len(list(files.served(run)))
        files.write_tio(c.path('Run{:05d}_r1.tio'.format(r)), run)
    path = c.path('runlist.txt')
    with open(path, 'w') as f:
        f.write('run value\n')
        for r in runs:
            f.write('{} {}\n'.format(r, r * 2))
    limit = None if c.rng.random() < 0.5 else int(c.rng.integers(1, 5))
    df = F.open_runlist_r1(path, max_events=limit)
    for r, row in df.iterrows():
        c.event('readers_opened')
        c.check(row['reader'].path == row['path']
                and row['reader'].run_id == r, 'reader-run',
                (r, row['reader'].run_id))
        want = content[r] if limit is None else min(limit, content[r])
        c.check(row['reader'].n_events == want, 'reader-events')
    c.check('reader' not in F.open_runlist_r1(path, False).columns,
            'opened-unasked')
    for r in runs:
        with HDF5Writer(c.path('Run{:05d}_dl1.h5'.format(r))) as w:
            w.add_metadata(key='data', run_id=r, n_events=7)
    df = F.open_runlist_dl1(path)
    for r, row in df.iterrows():
        c.event('readers_opened')
        with row['reader'] as reader:
            c.check(reader.metadata['run_id'] == r
                    and row['path'] == c.path('Run{:05d}_dl1.h5'.format(r)),
                    'dl1-reader-run', (r, row['path']))
    c.check('reader' not in F.open_runlist_dl1(path, False).columns,
            'opened-unasked')
    os.remove(c.path('Run{:05d}_r1.tio'.format(runs[1])))
    c.raises(FileNotFoundError, lambda: F.open_runlist_r1(path),
             'missing-run')
    c.nontrivial(runs, limit)


@group(quick=100, thorough=5000)
def hv(c):
    from CHECLabPy.utils.files import extract_hv_cfg
    dac = np.zeros((32, 16), int)
    on = np.zeros((32, 16), int)
    lines = []
    for tm in range(32):
        for sp in range(16):
            if c.rng.random() < 0.7:
                dac[tm, sp] = int(c.rng.integers(
                    0, 256 if c.rng.random() < 0.95 else 4096))
                lines.append('M:{}/F/S:{}|HV={}'.format(tm, sp, dac[tm, sp]))
            if c.rng.random() < 0.7:
                on[tm, sp] = int(c.rng.integers(0, 2))
                lines.append('M:{}/F/S:{}|HVOn={}'.format(tm, sp,
                                                          on[tm, sp]))
    what = int(c.rng.integers(3))
    lines = [ln + str(c.rng.choice(['', ' ', ' # set by hand', ';']))
             for ln in lines]
    if what:
        lines += ['', '# HV settings of the camera', '[camera]',
                  'M:3/F/S:4|Gain=77', 'M:5/F|HV=12', 'S:3|HV=9',
                  'Version=2', 'M:1/G/S:2|HV=200']
        lines = [str(x) for x in c.rng.permutation(lines)]
    if what == 2:
        lines = ['    ' + ln for ln in lines]
    path = c.path('hv.cfg')
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + str(c.rng.choice(['', '\n'])))
    got_dac, got_on = extract_hv_cfg(path)
    c.event('hv_values', 1024)
    c.equal(np.asarray(got_dac), dac, 'hv-dac')
    c.equal(np.asarray(got_on), on, 'hv-on')
    c.nontrivial('hv', what, len(lines), dac.sum())


@group(quick=16, thorough=300)
def directories(c):
    from CHECLabPy.utils.files import create_directory
    p = c.path(os.path.join(*['d{}'.format(int(x)) for x in
                              c.rng.integers(0, 9, int(c.rng.integers(1, 5)))]
                            ))
    for _ in range(2):
        create_directory(p)
        c.event('directories')
        c.check(os.path.isdir(p), 'directory-missing')
        with open(os.path.join(p, 'keep'), 'a') as f:
            f.write('x')
    create_directory('')  # the directory of a bare file name
    with open(os.path.join(p, 'keep')) as f:
        c.check(f.read() == 'xx', 'directory-content')
    c.nontrivial(p.count('/'), 'dir')
