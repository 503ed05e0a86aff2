#!/opt/venv/bin/python
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [--kind KIND]"""
import os
import sys
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon import harness
if __name__ == '__main__':
    sys.exit(harness.main(sys.argv[1], sys.argv[2:]))
