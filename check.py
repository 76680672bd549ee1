#!/opt/venv/bin/python
"""check.py PID [--tier quick|thorough]: decide one property on /repo's tree"""
import os
import sys
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_CORETYPE', 'Haswell')
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pyvc import driver
sys.exit(driver.main(sys.argv[1:]))
