#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('DST_CHILD') != '1':
    env = dict(os.environ, DST_CHILD='1', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0')
    env.setdefault('HOME', '/root')
    env.pop('PYTHONPATH', None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, '-X', 'faulthandler', os.path.join(HERE, 'check.py')] + sys.argv[1:], env)
sys.path.insert(0, HERE)
os.chdir(HERE)
from dst import runner, registry
import tempfile, shutil
scratch = tempfile.mkdtemp(prefix='dst_'); tempfile.tempdir = scratch; os.environ['TMPDIR'] = scratch
runner.CLEANUP.append(lambda: shutil.rmtree(scratch, ignore_errors=True))
pid = sys.argv[1]
try:
    rc = runner.main(registry.get(pid), sys.argv[2:])
except SystemExit: raise
except BaseException:
    import traceback; traceback.print_exc(); rc = 2
finally:
    for f in runner.CLEANUP: f()
sys.stdout.flush(); os._exit(rc)
