"""Environment of every check; has to be imported before numpy.

The code under test is always imported from the working tree in REPO (default /repo); nothing is written there."""
import os
import sys
import warnings

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('MC_REPO', '/repo'))
sys.path.insert(0, REPO)

warnings.simplefilter('ignore')

import numpy as np  # noqa: E402

np.seterr(all='ignore')

import bayesian_decision_tree  # noqa: E402

PKG = os.path.dirname(os.path.realpath(bayesian_decision_tree.__file__))
if not PKG.startswith(REPO + os.sep):
    raise SystemExit('bayesian_decision_tree was imported from {} instead of {}'.format(PKG, REPO))
