#!/usr/bin/env python3
"""Nothing to build: check that the analysis interpreter and its libraries are there."""
import os, subprocess, sys
PY = '/opt/veriftools/pyvenv/bin/python'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
sys.exit(subprocess.call([PY if os.path.exists(PY) else sys.executable, '-B', '-c',
                          'import numpy, sys; sys.path.insert(0, %r); import checks.registry; print("ok")' % V]))
