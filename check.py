#!/opt/venv/bin/python
"""Entry point of every registered check: check.py C01 [--tier quick|thorough] [--replay FILE]."""
import os
import sys

import warnings  # noqa: E402
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
os.environ['PYTHONWARNINGS'] = 'ignore'
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import core  # noqa: E402

if __name__ == '__main__':
    sys.exit(core.main(sys.argv[1:]))
