#!/usr/bin/env python3
"""Entry point of every check: run.py <property id> [quick|thorough]"""
import os
import sys

PY = '/opt/veriftools/pyvenv/bin/python'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath(os.path.dirname(os.path.dirname(PY))):
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from checks import registry          # noqa: E402

if __name__ == '__main__':
    sys.exit(registry.run(sys.argv[1], sys.argv[2:]))
