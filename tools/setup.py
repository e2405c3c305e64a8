"""Nothing is compiled: checks that the interpreter and the library of /repo can be imported."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PYTHONPATH=HERE + ':' + os.environ.get('VERIF_REPO', '/repo'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
           MPLCONFIGDIR='/tmp/simq_mpl', PYTHONWARNINGS='ignore')
sys.exit(subprocess.call([os.environ.get('SIMQ_PYTHON', '/opt/venv/bin/python'), '-c',
                          'from simq import engine; engine.preload(); print("ready")'], env=env, cwd=HERE))
