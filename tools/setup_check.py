"""Nothing to build: verifies that the interpreter and the code under test are there."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
subprocess.check_call([check.PY, '-c', 'import numpy, scipy, numba, pyfftw'])
print('ok', check.PY, check.REPO)
