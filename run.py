#!/usr/bin/env python3
"""python3 run.py C01 [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('SIMQ_PYTHON', '/opt/venv/bin/python')
env = {k: v for k, v in os.environ.items() if k.startswith(('VERIF_', 'SIMQ_')) or k in ('PATH', 'HOME', 'LANG', 'TMPDIR')}
env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
           NUMEXPR_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONPATH=HERE + ':' + os.environ.get('VERIF_REPO', '/repo'),
           PYTHONWARNINGS='ignore', JOBLIB_MULTIPROCESSING='1', MPLCONFIGDIR='/tmp/simq_mpl')
os.chdir(HERE)
os.execve(PY, [PY, '-m', 'simq.runner'] + sys.argv[1:], env)
