"""Runs the cases of a check, collects what its monitors saw, gives a verdict.

Three-valued: exit 0 (held on everything observed), exit 1 with a VIOLATION
line, exit 3 (inconclusive: nothing decided, never reported as held).
"""
import errno
import importlib
import json
import os
import signal
import sys
import time
import traceback
import zlib

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SOFT = dict(quick=150, thorough=900)  # s, no new case is started after this
CASE_LIMIT = 240  # s, bounded progress: cases take ms to a few s


class Inconclusive(Exception):
    """The machinery could not decide (never a verdict on the code)"""


class NoProgress(Exception):
    """The code under test did not finish in >100 times its usual time"""


class Case:
    def __init__(self, pid, group, index, seed, tier, scratch):
        self.pid, self.group, self.index = pid, group, index
        self.seed, self.tier = seed, tier
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(pid.encode()), zlib.crc32(group.encode()), index]
        )
        self._scratch = scratch
        self._dir = None
        self.notes = {}
        self.events = {}
        self.keys = set()
        self.n_checks = 0
        self.violations = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def dir(self):
        """Scratch directory of this case, removed after it"""
        if self._dir is None:
            self._dir = os.path.join(
                self._scratch, '{}_{}'.format(self.group, self.index))
            os.makedirs(self._dir)
        return self._dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def note(self, **kwargs):
        """Describe the case (kept in the evidence and the replay file)"""
        self.notes.update(kwargs)

    def event(self, kind, n=1):
        """Count something a monitor observed"""
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def nontrivial(self, *key):
        self.keys.add('{}:{}'.format(self.group, ':'.join(map(str, key))))

    def fail(self, mech, detail=''):
        if len(self.violations) < 20:
            self.violations.append((mech, str(detail)[:2000]))

    def check(self, cond, mech, detail=''):
        self.n_checks += 1
        if not cond:
            self.fail(mech, detail() if callable(detail) else detail)
        return bool(cond)

    def equal(self, got, want, mech, what=''):
        """Exact equality of arrays or values (NaN equal to NaN)"""
        got_, want_ = np.asarray(got), np.asarray(want)
        if got_.shape != want_.shape:
            return self.check(False, mech, '{}: shape {} instead of {}'.format(
                what, got_.shape, want_.shape))
        same = got_ == want_
        if got_.dtype.kind in 'fc' or want_.dtype.kind in 'fc':
            with np.errstate(all='ignore'):
                same = same | ((got_ != got_) & (want_ != want_))
        same = np.asarray(same)
        return self.check(same.all(), mech,
                          lambda: _diff(got_, want_, ~same, what))

    def close(self, got, want, mech, rtol=1e-5, atol=1e-6, what=''):
        got_ = np.asarray(got, dtype=np.float64)
        want_ = np.asarray(want, dtype=np.float64)
        if got_.shape != want_.shape:
            return self.check(False, mech, '{}: shape {} instead of {}'.format(
                what, got_.shape, want_.shape))
        with np.errstate(all='ignore'):
            same = np.isclose(got_, want_, rtol=rtol, atol=atol,
                              equal_nan=True)
        return self.check(same.all(), mech,
                          lambda: _diff(got_, want_, ~same, what))

    def raises(self, exc, func, mech, what=''):
        """`func` raises `exc`; returns the exception"""
        try:
            res = func()
        except exc as e:
            self.check(True, mech)
            return e
        except NoProgress:
            raise
        except Exception as e:
            self.check(False, mech, '{}: {!r} instead of {}'.format(
                what, e, exc))
            return None
        self.check(False, mech, '{}: no exception, returned {!r}'.format(
            what, res)[:500])
        return None


def _diff(got, want, bad, what):
    if got.ndim == 0:
        return '{}: got {!r} instead of {!r}'.format(what, got[()], want[()])
    idx = np.argwhere(bad)
    lines = ['{}: {} of {} differ'.format(what, len(idx), bad.size)]
    for i in idx[:4]:
        i = tuple(i)
        lines.append('{}: got {!r} instead of {!r}'.format(
            tuple(map(int, i)), got[i], want[i]))
    return '; '.join(lines)


def group(quick, thorough=None, name=None):
    """Declare a function as a generator + monitor of cases"""
    def wrap(f):
        f._group = dict(
            name=name or f.__name__, quick=quick,
            thorough=quick * 20 if thorough is None else thorough,
        )
        return f
    return wrap


def groups_of(module):
    res = {}
    for obj in vars(module).values():
        g = getattr(obj, '_group', None)
        if g is not None:
            res[g['name']] = (obj, g)
    return res


def _alarm(signum, frame):
    raise NoProgress('no result after {} s'.format(CASE_LIMIT))


def mechanism_of(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = 'harness'
    for f in tb:
        if f.filename.startswith('/repo/'):
            where = '{}:{}'.format(os.path.basename(f.filename), f.name)
    return 'exception-{}@{}'.format(type(exc).__name__, where)


def is_environment(exc):
    if isinstance(exc, MemoryError) and 'larger than 8' not in str(exc):
        return True
    return isinstance(exc, OSError) and exc.errno in (
        errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.EDQUOT)


def run_case(module, func, pid, name, index, seed, tier, scratch):
    c = Case(pid, name, index, seed, tier, scratch)
    inconclusive = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(module, 'CASE_LIMIT', CASE_LIMIT))
    try:
        func(c)
    except Inconclusive as e:
        inconclusive = str(e)
    except NoProgress:
        c.fail('no-progress', traceback.format_exc()[-1500:])
    except (Exception, SystemExit) as e:
        # A SystemExit is an executable refusing documented arguments
        if is_environment(e):
            inconclusive = repr(e)
        else:
            c.fail(mechanism_of(e), traceback.format_exc()[-1800:])
    finally:
        signal.alarm(0)
    try:
        plt = sys.modules.get('matplotlib.pyplot')
        if plt is not None:
            plt.close('all')
    except Exception:
        pass
    if c._dir:
        import shutil
        shutil.rmtree(c._dir, ignore_errors=True)
    return c, inconclusive


def work(module, pid, plan, seed, tier, scratch, out, quiet, known):
    """Run the planned cases of one worker and dump what was seen"""
    if quiet:
        log = os.open(os.path.join(scratch, 'worker.log'),
                      os.O_WRONLY | os.O_CREAT | os.O_APPEND)
        os.dup2(log, 1)
        os.dup2(log, 2)
    t0 = time.time()
    limit = getattr(module, 'SOFT', SOFT)[tier]
    res = dict(evaluations=0, checks=0, keys=set(), events={}, samples=[],
               violations=[], inconclusive=[], groups={}, skipped=0)
    funcs = groups_of(module)

    def dump():
        tmp = dict(res, keys=sorted(res['keys']))
        with open(out + '.tmp', 'w') as f:
            json.dump(tmp, f, default=str)
        os.replace(out + '.tmp', out)

    def record(c, inconclusive):
        res['evaluations'] += 1
        res['checks'] += c.n_checks
        res['keys'] |= c.keys
        for k, v in c.events.items():
            res['events'][k] = res['events'].get(k, 0) + v
        g = res['groups'].setdefault(c.group, [0, 0])
        g[0] += 1
        g[1] += c.n_checks
        if c.keys and sum(s['group'] == c.group for s in res['samples']) < 2:
            res['samples'].append(dict(group=c.group, index=c.index,
                                       **{k: str(v)[:200]
                                          for k, v in c.notes.items()}))
        if inconclusive:
            res['inconclusive'].append(inconclusive)
        for mech, detail in c.violations:
            res['violations'].append(dict(
                group=c.group, index=c.index, mech=mech, detail=detail,
                notes={k: str(v)[:500] for k, v in c.notes.items()}))

    ready = False
    for name, index in plan:
        if time.time() - t0 > limit:
            res['skipped'] += 1
            continue
        n_new = len({v['mech'] for v in res['violations']} - set(known))
        if n_new >= 3 or (n_new and len(res['violations']) > 30):
            break
        with open(out + '.at', 'w') as f:
            json.dump([name, index], f)
        if not ready:
            setup = getattr(module, 'setup', None)
            if setup is not None:
                # Part of the first case: failing to import is an outcome
                c, inc = run_case(module, lambda c: setup(), pid, name, index,
                                  seed, tier, scratch)
                if c.violations or inc:
                    record(c, inc)
                    break
            ready = True
        record(*run_case(module, funcs[name][0], pid, name, index, seed, tier,
                         scratch))
    dump()


def plan_cases(module, tier):
    """Round-robin over the groups, so that a time limit cuts all alike"""
    todo = {}
    for n, (_, g) in groups_of(module).items():
        count = g[tier]
        if tier == 'quick' and count >= 4:
            # cheap checks take more cases of the groups with random inputs
            count = min(count * getattr(module, 'QUICK_FACTOR', 1),
                        max(g['thorough'], count))
        todo[n] = list(range(count))
    total = {n: max(len(v), 1) for n, v in todo.items()}
    plan = []
    for n, idx in todo.items():
        plan += [((i + 0.5) / total[n], n, i) for i in idx]
    return [(n, i) for _, n, i in sorted(plan)]


def load_known(pid):
    known = {}
    try:
        with open(os.path.join(HERE, 'known_findings.txt')) as f:
            for line in f:
                parts = line.strip().split(' ', 3)
                if parts[0] == 'finding:' and parts[1] == 'property=' + pid:
                    known[parts[2][len('mechanism='):]] = parts[3]
    except FileNotFoundError:
        pass
    return known


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    scratch = os.environ['VERIF_SCRATCH']
    t0 = time.time()
    replay = None
    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
            replay = json.load(f)
        tier, seed = replay['tier'], replay['seed']
    module = importlib.import_module('checks.' + pid.lower())
    known = load_known(pid)
    if replay:
        plan = [(replay['group'], replay['index'])]
    else:
        plan = plan_cases(module, tier)
    only = os.environ.get('VERIF_ONLY')
    if only:
        plan = [p for p in plan if p[0] in only.split(',')]
    n_workers = getattr(module, 'WORKERS', dict(quick=2, thorough=6))[tier]
    n_workers = max(1, min(n_workers, len(plan)))
    quiet = not os.environ.get('VERIF_VERBOSE') and not replay

    outs = []
    pids = []
    for k in range(n_workers):
        wdir = os.path.join(scratch, 'w{}'.format(k))
        os.makedirs(wdir)
        out = os.path.join(wdir, 'out.json')
        outs.append(out)
        sys.stdout.flush()
        child = os.fork()
        if child == 0:
            code = 0
            try:
                os.chdir(wdir)
                os.environ['TMPDIR'] = wdir
                os.environ['VERIF_SCRATCH'] = wdir
                os.environ['NUMBA_CACHE_DIR'] = wdir + '/numba'
                import tempfile
                tempfile.tempdir = None
                import faulthandler
                faulthandler.enable()
                work(module, pid, plan[k::n_workers], seed, tier, wdir, out,
                     quiet, known)
            except BaseException:
                traceback.print_exc()
                code = 4
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(child)

    total = dict(evaluations=0, checks=0, keys=set(), events={}, samples=[],
                 violations=[], inconclusive=[], groups={}, skipped=0)
    for k, (child, out) in enumerate(zip(pids, outs)):
        _, status = os.waitpid(child, 0)
        if os.WIFSIGNALED(status) or not os.path.exists(out):
            at = None
            try:
                with open(out + '.at') as f:
                    at = json.load(f)
            except (OSError, ValueError):
                pass
            sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
            if at and sig in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE,
                              signal.SIGILL, signal.SIGABRT):
                total['violations'].append(dict(
                    group=at[0], index=at[1], mech='process-crash',
                    detail='killed by signal {}'.format(sig), notes={}))
            else:
                log = ''
                try:
                    with open(os.path.join(os.path.dirname(out),
                                           'worker.log')) as f:
                        log = f.read()[-1500:]
                except OSError:
                    pass
                total['inconclusive'].append(
                    'worker ended without result, status {} at {} {}'.format(
                        status, at, log))
            continue
        with open(out) as f:
            r = json.load(f)
        for key in ('evaluations', 'checks', 'skipped'):
            total[key] += r[key]
        total['keys'] |= set(r['keys'])
        for k2, v in r['events'].items():
            total['events'][k2] = total['events'].get(k2, 0) + v
        for k2, v in r['groups'].items():
            g = total['groups'].setdefault(k2, [0, 0])
            g[0] += v[0]
            g[1] += v[1]
        total['samples'] += r['samples']
        total['violations'] += r['violations']
        total['inconclusive'] += r['inconclusive']

    new = [v for v in total['violations'] if v['mech'] not in known]
    for mech, what in known.items():
        print('KNOWN-FINDING: property={} {}'.format(pid, what))
    finish(module, pid, tier, seed, t0, total, new, replay)


def finish(module, pid, tier, seed, t0, total, new, replay):
    outdir = os.path.join(HERE, 'evidence')
    os.makedirs(outdir, exist_ok=True)
    missing = [e for e in getattr(module, 'REQUIRE', [])
               if not total['events'].get(e)]
    samples, seen = [], {}
    for s in total['samples']:
        if seen.get(s['group'], 0) < 2 and len(samples) < 12:
            seen[s['group']] = seen.get(s['group'], 0) + 1
            samples.append(s)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level=module.LEVEL,
        coverage=dict(
            evaluations=total['evaluations'],
            distinct_nontrivial=len(total['keys']),
            rule=' '.join(module.RULE.split()),
            samples=samples or ['none'],
            monitor_checks=total['checks'],
            observed=dict(sorted(total['events'].items())),
            cases_per_group={k: v[0]
                             for k, v in sorted(total['groups'].items())},
            cases_not_started_for_time=total['skipped'],
            inconclusive_cases=len(total['inconclusive']),
        ),
        assumptions=[' '.join(a.split())
                     for a in getattr(module, 'ASSUMPTIONS', [])],
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    if replay is None:
        tmp = os.path.join(outdir, '.{}.{}'.format(pid, os.getpid()))
        with open(tmp, 'w') as f:
            json.dump(evidence, f, indent=1, default=str)
        os.replace(tmp, os.path.join(outdir, pid + '.json'))
    if new:
        rdir = os.path.join(outdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        done = set()
        for v in new:
            if v['mech'] in done or len(done) >= 5:
                continue
            done.add(v['mech'])
            mech = ''.join(ch if ch.isalnum() or ch in '-_' else '_'
                           for ch in v['mech'])[:80]
            path = os.path.join(rdir, '{}_{}.json'.format(pid, mech))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, **v), f,
                          indent=1, default=str)
            print('{}: {}/{}: {}'.format(v['mech'], v['group'], v['index'],
                                         v['detail'][-600:]))
            print('VIOLATION property={} replay={}'.format(pid, path))
        sys.exit(1)
    if (total['inconclusive'] or missing or not total['evaluations']
            or not total['checks'] or
            (not total['keys'] and replay is None)):
        print('INCONCLUSIVE property={} {} {} {}'.format(
            pid, total['inconclusive'][:3],
            'never observed: {}'.format(missing) if missing else '',
            'nothing was checked' if not total['checks'] else ''))
        sys.exit(3)
    print('HELD property={} tier={} seed={} cases={} distinct={} checks={} '
          'wall={}s'.format(pid, tier, seed, total['evaluations'],
                            len(total['keys']), total['checks'],
                            evidence['wall_s']))
    sys.exit(0)


if __name__ == '__main__':
    # `checks.*` import vlib.engine: make it this very module
    sys.modules['vlib.engine'] = sys.modules['__main__']
    main()
