#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay file]"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python3'
if os.access(PY, os.X_OK) and not os.environ.get('VT_REEXEC') and (sys.prefix != '/opt/venv' or os.environ.get('PYTHONHASHSEED') != '0'):
    os.environ.update(VT_REEXEC='1', PYTHONHASHSEED='0')
    os.execv(PY, [PY] + sys.argv)

from vt import checks  # noqa: E402

if __name__ == '__main__':
    sys.exit(checks.main(sys.argv[1:]))
