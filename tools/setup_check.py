#!/usr/bin/env python3
"""setup_cmd: nothing is compiled; verify that the interpreter and the libraries the checks need are there."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
py = '/opt/venv/bin/python'
if not os.path.exists(py): py = sys.executable
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
r = subprocess.run([py, '-c', 'import numpy, scipy, casadi, asyncua; print("ok", casadi.__version__)'], env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
sys.exit(r.returncode)
