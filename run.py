#!/usr/bin/env python3
"""Entry point of every check:  run.py <property id> [--replay FILE]

Re-executes itself with the interpreter CHECLabPy is built for, in a scratch
directory that is removed afterwards, importing the code from /repo's working
tree.  VERIF_TIER (quick/thorough) and VERIF_SEED select the workload.
"""
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
WATCHDOG = dict(quick=800, thorough=3600)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in WATCHDOG:
        tier = 'quick'
    scratch = tempfile.mkdtemp(prefix='verif_{}_'.format(sys.argv[1]))
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('NUMBA_', 'PYTHON', 'MPL'))}
    env.update(
        HOME=scratch, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
        MPLBACKEND='Agg', MPLCONFIGDIR='/opt/venv/mplconfig'
        if os.path.isdir('/opt/venv/mplconfig') else scratch,
        NUMBA_NUM_THREADS='4', NUMBA_CACHE_DIR=scratch + '/numba',
        OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
        PYTHONPATH='/repo:{}:{}/fakes'.format(HERE, HERE),
        PYTHONWARNINGS='ignore', TQDM_DISABLE='1', TZ='UTC',
        XDG_CACHE_HOME=scratch + '/cache', XDG_CONFIG_HOME=scratch + '/cfg',
        VERIF_TIER=tier, VERIF_SCRATCH=scratch,
        TMPDIR=scratch,
    )
    proc = subprocess.Popen(
        [PY, '-m', 'vlib.engine'] + sys.argv[1:], env=env, cwd=scratch,
        start_new_session=True,
    )
    try:
        code = proc.wait(WATCHDOG[tier])
    except subprocess.TimeoutExpired:
        print('INCONCLUSIVE property={} watchdog'.format(sys.argv[1]))
        code = 3
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
    return code if code >= 0 else 3


if __name__ == '__main__':
    sys.exit(main())
