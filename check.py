#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('HMON_REPO', '/repo')

# One numeric thread per worker, no bytecode files in or read from the tree
# under test, no display, matplotlib state kept in a throw-away directory.
FIXED = {'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1',
         'MKL_NUM_THREADS': '1', 'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg',
         'PYTHONDONTWRITEBYTECODE': '1'}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only', action='append')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if os.environ.get('HMON_CHILD') != '1':
        with tempfile.TemporaryDirectory(prefix='hmon-') as tmp:
            env = dict(os.environ, **FIXED, HMON_CHILD='1',
                       MPLCONFIGDIR=tmp, HMON_TMP=tmp)
            sys.exit(os.spawnve(os.P_WAIT, '/opt/venv/bin/python',
                                ['/opt/venv/bin/python',
                                 os.path.abspath(__file__)] + sys.argv[1:],
                                env) or 0)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import numpy, scipy.signal, scipy.stats, matplotlib.pyplot  # noqa: E401
    # compiled files left in the tree under test are never trusted
    sys.pycache_prefix = os.path.join(os.environ['HMON_TMP'], 'pyc')
    import harold
    got = os.path.dirname(os.path.dirname(os.path.abspath(harold.__file__)))
    if got != os.path.abspath(REPO):
        print(f'harold was imported from {got}, not from {REPO}')
        sys.exit(2)
    from hmon import core
    if a.replay:
        sys.exit(core.replay(a.replay))
    sys.exit(core.run(a.prop.upper(), a.tier, a.seed, a.jobs, a.scale,
                      a.only))


if __name__ == '__main__':
    main()
