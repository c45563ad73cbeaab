"""Locates and imports the code under test from /repo's working tree.

Nothing is built or written inside /repo: byte code goes to a fresh temporary
folder, and the git-ignored generated version module is stubbed when absent.
"""
import logging
import os
import sys
import tempfile
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
HYP = '/opt/veriftools/pyvenv/lib/python%d.%d/site-packages' % sys.version_info[:2]


def prepare(scratch):
    """Environment, import path and silence; call before importing numpy."""
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(k, '1')
    os.environ['MPLBACKEND'] = 'Agg'
    if not os.access(os.environ.get('MPLCONFIGDIR', '/opt/mplconfig'), os.W_OK):
        os.environ['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    else:
        os.environ.setdefault('MPLCONFIGDIR', '/opt/mplconfig')
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(scratch, 'hyp')
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    sys.path.insert(0, SRC)
    if HYP not in sys.path:
        sys.path.append(HYP)
    warnings.simplefilter('ignore')
    if not os.path.exists(os.path.join(SRC, 'emva1288', '_version.py')):
        m = types.ModuleType('emva1288._version')
        m.version = m.__version__ = '0'
        m.version_tuple = m.__version_tuple__ = (0,)
        sys.modules['emva1288._version'] = m
    tempfile.tempdir = scratch


def silence():
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
