"""C48: readers and commands write nothing but the outputs they are asked for"""
import gc
import glob
import hashlib
import os
import stat
import sys

import numpy as np

from vlib.engine import group

LEVEL = 'exploration'
TECHNIQUE = """runtime monitoring: audit events and open descriptors of the
real readers and executables, and the state of all directories involved before
and after"""
RULE = """Every reader and executable runs on generated inputs while monitors
watch: an audit hook records everything opened for writing, removed, renamed
or created; the access mode of every descriptor on an input is read from the
kernel while it is open; inputs, working directory, home and output directory
are listed with hash, size, modification time and mode before and after, and
descriptors still open after a with-block or an executable ended are listed.
Files are also read by several processes at once. Distinct by command and
inputs."""
ASSUMPTIONS = ["stand-ins for target_io, target_calib, ctapipe and ROOT"]
REQUIRE = ['inputs_compared', 'descriptors_seen', 'audit_events', 'commands',
           'readers', 'closed', 'parallel_readers', 'outputs',
           'sensor_alive', 'imports']
WORKERS = dict(quick=6, thorough=8)

AUDIT = dict(on=False, log=[])
WRITERS = ('os.remove', 'os.rename', 'os.mkdir', 'os.rmdir', 'os.link',
           'os.symlink', 'os.truncate', 'os.chmod', 'os.utime',
           'shutil.copyfile', 'shutil.move', 'shutil.rmtree')


def hook(event, args):
    if not AUDIT['on']:
        return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(path, (str, bytes)):
            return
        writing = (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT
                                  | os.O_TRUNC | os.O_APPEND)
        AUDIT['log'].append(('open', os.fsdecode(path), bool(writing)))
    elif event in WRITERS:
        AUDIT['log'].append((event, os.fsdecode(args[0]) if isinstance(
            args[0], (str, bytes)) else '', True))


def setup():
    import CHECLabPy.core.chain  # noqa
    import CHECLabPy.scripts.extract_dl1  # noqa
    import CHECLabPy.scripts.extract_spe  # noqa
    import CHECLabPy.scripts.generate_dl1_config  # noqa
    import CHECLabPy.scripts.plot_spe  # noqa
    from checks import c37
    c37.setup()
    sys.addaudithook(hook)


def listing(d):
    """Every file below d: kind, mode, size, modification time, hash"""
    res = {}
    for root, dirs, names in os.walk(d):
        for n in names + dirs:
            p = os.path.join(root, n)
            s = os.lstat(p)
            h = ''
            if stat.S_ISREG(s.st_mode):
                with open(p, 'rb') as f:
                    h = hashlib.sha256(f.read()).hexdigest()
            res[os.path.relpath(p, d)] = (
                stat.S_IFMT(s.st_mode), stat.S_IMODE(s.st_mode),
                s.st_size if h else 0, s.st_mtime_ns if h else 0, s.st_ino, h)
    return res


def descriptors(d):
    """(path, writable) of the open descriptors below d"""
    res = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            path = os.readlink('/proc/self/fd/' + fd)
            with open('/proc/self/fdinfo/' + fd) as f:
                flags = [ln for ln in f if ln.startswith('flags')]
        except OSError:
            continue
        if path.startswith(d + os.sep):
            acc = int(flags[0].split()[1], 8) & os.O_ACCMODE
            res.append((path[len(d) + 1:], acc != os.O_RDONLY))
    return res


class Watch:
    """Inputs in one directory; the command runs in another one"""

    def __init__(self, c):
        self.c = c
        self.dirs = {k: c.path(k) for k in ('in', 'cwd', 'home', 'out')}
        for d in self.dirs.values():
            os.makedirs(d, exist_ok=True)
        self.seen = set()

    def __enter__(self):
        import pandas as pd
        gc.collect()
        self.before = {k: listing(d) for k, d in self.dirs.items()}
        self.saved = os.getcwd(), os.environ.get('HOME')
        os.chdir(self.dirs['cwd'])
        os.environ['HOME'] = self.dirs['home']
        self.orig = pd.HDFStore.open
        me = self

        def opened(store, *args, **kwargs):
            res = me.orig(store, *args, **kwargs)
            me.look()
            return res
        pd.HDFStore.open = opened
        AUDIT['log'] = []
        AUDIT['on'] = True
        return self

    def look(self):
        on, AUDIT['on'] = AUDIT['on'], False
        for path, writable in descriptors(self.dirs['in']):
            self.c.event('descriptors_seen')
            self.c.check(not writable, 'input-opened-for-writing', path)
        AUDIT['on'] = on

    def __exit__(self, *args):
        import pandas as pd
        AUDIT['on'] = False
        pd.HDFStore.open = self.orig
        os.chdir(self.saved[0])
        os.environ['HOME'] = self.saved[1] or ''

    def judge(self, outputs=(), closed=True, what=''):
        c = self.c
        after = {k: listing(d) for k, d in self.dirs.items()}
        for k in ('in', 'cwd', 'home'):
            c.event('inputs_compared', len(after[k]))
            c.check(after[k] == self.before[k], 'changed-' + k, lambda: (
                what, sorted(p for p in set(after[k]) | set(self.before[k])
                             if after[k].get(p) != self.before[k].get(p))))
        new = sorted(p for p in after['out']
                     if p not in self.before['out'])
        gone = sorted(p for p in self.before['out']
                      if p not in after['out'])
        c.event('outputs', len(new))
        c.check(new == sorted(outputs), 'outputs', (what, new,
                                                    sorted(outputs)))
        other = [p for p in after['out'] if p in self.before['out']
                 and after['out'][p] != self.before['out'][p]
                 and after['out'][p][0] == stat.S_IFREG]
        c.check(not gone and not other, 'other-files-in-output',
                (what, gone, other))
        scratch = os.path.realpath(self.dirs['out'])
        for kind, path, writing in AUDIT['log']:
            c.event('audit_events')
            p = os.path.realpath(os.path.join(self.dirs['cwd'], path))
            if writing and not p.startswith(scratch) and not (
                    p.startswith('/dev/') or '/numba/' in p
                    or '/pymp-' in p or '/listener-' in p
                    or 'mplconfig' in p or 'fontlist' in p
                    or p.endswith(('.pyc', '.lock', '.log'))
                    or '/tmp' == os.path.dirname(p)):
                # files of the libraries, not of the package
                root = os.path.dirname(scratch)
                c.check(not p.startswith((root, '/repo/')),
                        'written-elsewhere', (what, kind, p))
        gc.collect()
        if closed:
            left = [(k, x) for k in ('in', 'out')
                    for x in descriptors(self.dirs[k])]
            c.event('closed')
            c.check(not left, 'left-open', (what, left))


@group(quick=1, thorough=2)
def sensor(c):
    """The monitors see what they are meant to see"""
    import pandas as pd
    w = Watch(c)
    p = os.path.join(w.dirs['in'], 'a.h5')
    pd.DataFrame(dict(x=[1.])).to_hdf(p, key='a')
    inner = type(c)(c.pid, c.group, c.index, c.seed, c.tier, c.dir)
    w.c = inner
    with w:
        with pd.HDFStore(p, mode='a'):
            pass
        with open(os.path.join(w.dirs['cwd'], 'x'), 'w'):
            pass
        f = open(p, 'rb')
    w.judge()
    f.close()
    seen = {m for m, _ in inner.violations}
    for m in ('input-opened-for-writing', 'changed-cwd', 'written-elsewhere',
              'left-open'):
        if c.check(m in seen, 'sensor-' + m, seen):
            c.event('sensor_alive')
    c.nontrivial('sensor', c.index)


def make_dl1(c, path, n_pixels=None):
    from checks.c37 import small_mapping, write_dl1
    n_pixels = n_pixels or int(c.rng.integers(1, 5))
    q = c.rng.normal(25, 12, (int(c.rng.integers(30, 60)), n_pixels))
    write_dl1(path, q, c.rng, small_mapping(c.rng, n_pixels))
    return n_pixels


@group(quick=24, thorough=800)
def commands(c):
    from CHECLabPy.scripts import extract_dl1, extract_spe, \
        generate_dl1_config, plot_spe
    from checks.c43 import Saved
    from vlib import dl1, files
    rng = c.rng
    w = Watch(c)
    i, o = w.dirs['in'], w.dirs['out']
    with open(os.path.join(o, 'precious.txt'), 'w') as f:
        f.write('keep')
    what = ['extract_dl1', 'simtel', 'generate', 'extract_spe', 'plot_spe',
            'several', 'default'][c.index % 7]
    c.note(command=what)
    c.event('commands')
    if what in ('extract_dl1', 'several', 'default'):
        paths = []
        d = i if what == 'extract_dl1' else o
        for k in range(1 if what == 'extract_dl1' else 2):
            run = files.random_run(rng, 3 + int(rng.integers(1, 5)),
                                   camera='1.1.0', n_modules=1, bad=.2)
            run['STALE'][2] = run['MISSING'][2] = 0
            p = os.path.join(d, 'Run{}_r1.tio'.format(k))
            files.write_tio(p, run)
            paths.append(p)
        argv = ['-f', *paths]
        if what == 'extract_dl1':
            argv += ['-o', os.path.join(o, 'x_dl1.h5')]
            want = ['x_dl1.h5']
        else:  # next to the inputs, which are in the output directory
            want = ['Run0_dl1.h5', 'Run1_dl1.h5']
        if rng.random() < 0.5:
            cfg = os.path.join(i, 'cfg.yml')
            with open(cfg, 'w') as f:
                f.write('waveform_max: True\n')
            argv += ['-c', cfg]
        with w:
            dl1.run_script(extract_dl1, argv)
        w.judge(want, what=what)
    elif what == 'simtel':
        p = os.path.join(i, 'gamma.simtel.gz')
        files.write_simtel(p, files.random_sim(rng, 2, n_samples=32))
        cfg = os.path.join(i, 'cfg.yml')
        with open(cfg, 'w') as f:
            f.write('waveform_max: True\n')
        with w:
            dl1.run_script(extract_dl1, ['-f', p, '-o', os.path.join(
                o, 'sim_dl1.h5'), '-c', cfg])
        w.judge(['sim_dl1.h5'], what=what)
    elif what == 'generate':
        with w:
            dl1.run_script(generate_dl1_config,
                           ['-o', os.path.join(o, 'new.yml')])
        w.judge(['new.yml'], what=what)
    else:
        paths = []
        n_pixels = int(rng.integers(1, 5))
        for k in range(int(rng.integers(1, 3))):
            paths.append(os.path.join(i, 'Run{}_dl1.h5'.format(k)))
            make_dl1(c, paths[-1], n_pixels)
        spe = os.path.join(o if what == 'extract_spe' else i, 'spe.h5')
        argv = ['-f', *paths, '-o', spe, '-C', 'charge', '-s',
                'MomentFitter', '--n_processes', int(rng.choice([1, 2]))]
        if what == 'extract_spe':
            with w:
                dl1.run_script(extract_spe, argv)
            w.judge(['spe.h5'], what=what)
        else:
            dl1.run_script(extract_spe, argv)
            with Saved() as s, w:
                dl1.run_script(plot_spe, ['-f', spe, '-o', o, '-p', '0'])
            c.check(len(s.figs) > 2, 'figures', sorted(s.figs))
            w.judge([], what=what)
    c.nontrivial(what, c.index)


@group(quick=24, thorough=800)
def readers(c):
    from CHECLabPy.calib.illumination_profile import IlluminationProfile
    from CHECLabPy.core.io import DL1Reader, HDF5Reader, ReaderR0, ReaderR1, \
        SimtelReader, TIOReader
    from CHECLabPy.core.io.waveform import WaveformReader
    from CHECLabPy.utils import files as uf
    from vlib import files
    rng = c.rng
    w = Watch(c)
    i = w.dirs['in']
    what = ['hdf5', 'dl1', 'tio', 'simtel', 'runlist', 'tables',
            'incomplete'][c.index % 7]
    c.note(reader=what)
    c.event('readers')
    if what in ('hdf5', 'dl1', 'incomplete'):
        p = os.path.join(i, 'Run1_dl1.h5')
        make_dl1(c, p)
        os.chmod(p, int(rng.choice([0o444, 0o644])))
        with w:
            if what == 'hdf5':
                with HDF5Reader(p) as r:
                    w.look()
                    r.read('data')
                    r.get_mapping()
                    list(r.iterate_over_chunks('data', 7))
                    r.select('data', start=1, stop=3)
                    r.get_metadata()
                    w.look()
            elif what == 'dl1':
                with DL1Reader(p) as r:
                    w.look()
                    r.load_entire_table()
                    list(r.iterate_over_events())
                    r.select_columns(['charge', 'iev'])
                    r.metadata, r.mapping, r.columns
                    w.look()
            else:  # an error inside the block
                try:
                    with DL1Reader(p) as r:
                        r.read('missing')
                except KeyError:
                    pass
                try:
                    with DL1Reader(p) as r:
                        r[10 ** 9]
                except IndexError:
                    pass
        w.judge(what=what)
    elif what in ('tio', 'simtel'):
        if what == 'tio':
            r1 = bool(rng.random() < 0.6)
            p = os.path.join(i, 'Run1_{}.tio'.format('r1' if r1 else 'r0'))
            files.write_tio(p, files.random_run(
                rng, 6, camera='1.1.0', n_modules=1, r1=r1),
                bool(rng.random() < 0.3))
            classes = [ReaderR1 if r1 else ReaderR0, TIOReader]
        else:
            p = os.path.join(i, 'gamma.simtel.gz')
            files.write_simtel(p, files.random_sim(rng, 3, n_samples=32))
            classes = [SimtelReader]
        os.chmod(p, int(rng.choice([0o444, 0o644])))
        with w:
            for cls in classes + [WaveformReader.from_path]:
                r = cls(p)
                w.look()
                for wf in r:
                    np.asarray(wf) + 1
                r[0], r.mapping, len(r)
                w.look()
                r.n_events, r.reference_pulse_path
            for sub in (TIOReader, SimtelReader):
                sub.is_compatible(p)
        w.judge(closed=False, what=what)
    elif what == 'runlist':
        for k in (1, 2):
            make_dl1(c, os.path.join(i, 'Run{:05}_dl1.h5'.format(k)), 2)
            run = files.random_run(rng, 6, camera='1.1.0', n_modules=1)
            files.write_tio(os.path.join(
                i, 'Run{:05}_r1.tio'.format(k)), run)
        p = os.path.join(i, 'runlist.txt')
        with open(p, 'w') as f:
            f.write('#run pe_expected pe_expected_err\n1 2. .1\n2 3. .1\n')
        with w:
            df = uf.open_runlist_dl1(p)
            w.look()
            for r in df['reader']:
                r.load_entire_table()
                r.store.close()
            uf.open_runlist_r1(p)
            uf.open_runlist_dl1(p, open_readers=False)
        w.judge(closed=False, what=what)
    else:
        p = os.path.join(i, 'profile.dat')
        np.savetxt(p, rng.uniform(.5, 2, (64, 1)), header='correction',
                   comments='')
        hv = os.path.join(i, 'hv.cfg')
        with open(hv, 'w') as f:
            f.write('M:0/F/S:1|HV=3\n')
        with w:
            IlluminationProfile(p)
            uf.extract_hv_cfg(hv)
            from CHECLabPy.calib.pixel_masks import PixelMasks
            from CHECLabPy.calib.sipm_data_sheet import \
                SiPMDataSheetConverter
            from CHECLabPy.calib.time_calibrator import TimeCalibrator
            masks = glob.glob('/repo/CHECLabPy/calib/data/pixel_masks/*')
            PixelMasks()
            PixelMasks(masks[0])
            SiPMDataSheetConverter()(vover=3)
            TimeCalibrator()
        w.judge(what=what)
    c.nontrivial(what, c.index)


@group(quick=6, thorough=200)
def at_once(c):
    """Several processes read a file while others have it open"""
    from CHECLabPy.core.io import DL1Reader
    path = c.path('Run1_dl1.h5')
    make_dl1(c, path, 3)
    with DL1Reader(path) as r:
        want = r.load_entire_table()['charge'].sum()
        before = listing(c.dir)
        pids = []
        for _ in range(4):
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    with DL1Reader(path) as mine:
                        if mine.load_entire_table()['charge'].sum() == want:
                            code = 0
                finally:
                    os._exit(code)
            pids.append(pid)
        codes = [os.waitpid(p, 0)[1] for p in pids]
        # and twice in this process
        with DL1Reader(path) as again:
            c.equal(again.load_entire_table()['charge'].sum(), want,
                    'opened-twice')
    c.event('parallel_readers', len(codes))
    c.check(codes == [0] * 4, 'parallel-readers', codes)
    c.check(listing(c.dir) == before, 'changed-in')
    c.nontrivial('at_once', c.index)


PROBE = '''
import json, os, sys
sys.path.insert(0, '/repo')
# what the package itself depends on comes first: its import-time side
# effects are not the package's
import numpy, pandas, scipy.interpolate, scipy.optimize, yaml, tables
import matplotlib, numba, tqdm, astropy.io.fits, packaging.version
matplotlib.use('agg')
import matplotlib.pyplot, iminuit, argparse, warnings, random, locale, logging
import signal, multiprocessing, concurrent.futures, threading, gc
before_args = list(sys.argv)
def state():
    return dict(cwd=os.getcwd(), env=dict(os.environ),
        umask=(lambda m: (os.umask(m), m)[1])(os.umask(0)),
        filters=[repr(f) for f in warnings.filters],
        err=numpy.geterr(), rnd=hash(random.getstate()),
        nprnd=numpy.random.get_state()[1].tolist()[:9],
        locale=locale.setlocale(locale.LC_ALL),
        level=logging.getLogger().level,
        handlers=len(logging.getLogger().handlers),
        sig=[repr(signal.getsignal(s)) for s in (2, 13, 14, 15, 17)],
        excepthook=sys.excepthook is sys.__excepthook__,
        stdout=sys.stdout is sys.__stdout__,
        figs=matplotlib.pyplot.get_fignums(),
        backend=matplotlib.get_backend(),
        rc=sorted((k, repr(v)) for k, v in matplotlib.rcParams.items()
                  if not k.startswith('animation')),
        threads=threading.active_count(),
        start=multiprocessing.get_start_method(allow_none=True),
        gc=gc.isenabled(), limit=sys.getrecursionlimit(), argv=sys.argv[:],
        copy=pandas.get_option('mode.chained_assignment'))
s = state()
import importlib, pkgutil
home = set(os.listdir(os.environ['HOME']))
loaded = {m.split('.')[0] for m in sys.modules}
written = []
def hook(event, args):
    if event == 'open':
        flags = args[2] or 0
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            written.append(str(args[0]))
    if event in ('subprocess.Popen', 'os.fork', 'socket.connect',
                 'os.remove', 'os.mkdir', 'os.rename'):
        written.append(event)
sys.addaudithook(hook)
names = sys.argv[1].split(',')
errors = []
for n in names:
    try:
        importlib.import_module(n)
    except ImportError as e:
        errors.append([n, repr(e)])
t = state()
other = {m.split('.')[0] for m in sys.modules} - loaded - {'CHECLabPy'}
if other:  # their own doing
    for k in ('filters', 'rc', 'threads'):
        t[k] = s[k]
print('PROBE' + json.dumps(dict(
    changed=[k for k in s if s[k] != t[k]], written=written,
    detail={k: [str(s[k])[:300], str(t[k])[:300]] for k in s
            if s[k] != t[k]}, errors=errors, other=sorted(other),
    home=sorted(set(os.listdir(os.environ['HOME'])) - home))))
'''


def module_names():
    res = []
    root = '/repo/CHECLabPy'
    for d, dirs, fs in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ('tests', '__pycache__')
                   and os.path.exists(os.path.join(d, x, '__init__.py'))]
        rel = os.path.relpath(d, '/repo').replace(os.sep, '.')
        for f in fs:
            if f.endswith('.py'):
                res.append(rel if f == '__init__.py' else
                           rel + '.' + f[:-3])
    # needs ROOT
    return sorted(n for n in res if 'convert_hd52root' not in n)


@group(quick=3, thorough=60)
def importing(c):
    """Importing has no effect on files or the interpreter, in any order"""
    import json
    import subprocess
    dirs = {k: c.path(k) for k in ('cwd', 'home')}
    for d in dirs.values():
        os.makedirs(d)
    names = module_names()
    if c.index:
        c.rng.shuffle(names)
        names = names[:int(c.rng.integers(1, len(names)))]
    env = dict(os.environ, HOME=dirs['home'], PYTHONDONTWRITEBYTECODE='1',
               MPLCONFIGDIR=c.path('mplconfig'))
    r = subprocess.run([sys.executable, '-c', PROBE, ','.join(names)],
                       cwd=dirs['cwd'], env=env, capture_output=True,
                       text=True, timeout=120)
    lines = [ln for ln in r.stdout.splitlines() if ln.startswith('PROBE')]
    if not c.check(len(lines) == 1, 'import-failed', r.stderr[-800:]):
        return
    res = json.loads(lines[0][5:])
    c.event('imports', len(names))
    c.note(modules=len(names))
    c.check(r.stdout.strip() == lines[0].strip(), 'prints',
            lambda: r.stdout[:400])
    # "needs a library that is missing" is for C35
    c.check(not res['changed'], 'import-changes-state', res['detail'])
    c.check(not res['written'], 'import-writes', res['written'])
    c.check(not res['home'] and os.listdir(dirs['cwd']) == [],
            'import-leaves-files', (res['home'], os.listdir(dirs['cwd'])))
    c.note(other=res['other'])
    c.nontrivial('import', c.index)
