#!/usr/bin/env python3
"""Entry point of every check: check.py <property> [--tier quick|thorough] [--replay file].

Re-executes itself under the interpreter that has the product's dependencies, in a fixed environment, so that a run
is a function of VERIF_SEED, the scenario and the code in the working tree alone."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONUTF8': '1', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1', 'PYTHONPYCACHEPREFIX': '/nonexistent-pycache', 'LC_ALL': 'C.UTF-8',
       'TZ': 'UTC', 'PYTHONWARNINGS': 'ignore'}

if os.environ.get('HLC_CHECK_ENV') != '1':
    env = dict(os.environ)
    env.update(ENV)
    env.setdefault('PYTHONHASHSEED', '0')
    env['HLC_CHECK_ENV'] = '1'
    for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP'):
        env.pop(k, None)
    exe = '/opt/venv/bin/python'
    if not os.path.exists(exe):
        exe = sys.executable
    os.execve(exe, [exe, '-W', 'ignore', os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path[:0] = [HERE, os.environ.get('HLC_REPO', '/repo')]
from dst import rt                                                                                # noqa: E402

sys.exit(rt.main(sys.argv[1:]))
