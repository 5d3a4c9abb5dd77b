#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]  |  check.py --replay <file>"""
import os, sys
PY = '/opt/venv/bin/python'
if os.path.realpath(sys.executable) != os.path.realpath(PY) and not os.environ.get('SYMX_PY') and os.path.exists(PY) or 'SYMX_PY' not in os.environ:
    os.environ['SYMX_PY'] = '1'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.environ.setdefault('SETUPTOOLS_USE_DISTUTILS', 'local')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.execv(PY, [PY, '-W', 'ignore'] + sys.argv)
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
from symx import run
if sys.argv[1] == '--selftest':
    from symx import core, loader, env
    core.set_engine(core.Engine(__import__('time').time() + 60)); core.E.begin()
    loader.load('PyAnEn')
    print('encoder ready')
    sys.exit(0)
if sys.argv[1] == '--replay': sys.exit(run.replay_file(sys.argv[2]))
sys.exit(run.check(sys.argv[1].upper(), sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
