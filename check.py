#!/opt/venv/bin/python
"""Run the check of one property, or replay a recorded failing case.

    check.py C01            run (VERIF_SEED, VERIF_TIER from the environment)
    check.py --replay FILE  re-execute one recorded case without generation
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MPLBACKEND': 'Agg',
    'TZ': 'CST6CDT,M3.2.0,M11.1.0',  # any local time use in the code shows
}
PYTHON = '/opt/venv/bin/python'


def main():
    if any(os.environ.get(k) != v for k, v in WANT.items()) or 'PYTHONPATH' in os.environ:
        env = dict(os.environ)
        env.update(WANT)
        env.pop('PYTHONPATH', None)
        os.execve(PYTHON, [PYTHON, os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from harness import core
    return core.main(sys.argv[1:])


if __name__ == '__main__':
    sys.exit(main())
