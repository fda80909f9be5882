#!/usr/bin/env python3
"""seedtest.py [--no-tests] [--tier quick] [ID ...]   try planted bugs (in scratch copies of /repo only)

For each /verif/seeded/<id>: the patch applies, touches only original lines of non-test files; the 25 stable
tests pass with it; demo.sh passes without and fails with it; does the property's check report it?"""
import json, os, re, subprocess, sys, shutil, tempfile, xml.etree.ElementTree as ET, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
           OPENBLAS_NUM_THREADS='1', PIP_NO_INDEX='1')
args = sys.argv[1:]; notests = '--no-tests' in args; nocheck = '--no-check' in args
ids = [a for a in args if not a.startswith('-')] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
def sh(cmd, cwd, env=ENV, t=900):
    try: r = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired as e: return 124, 'TIMEOUT'
    return r.returncode, r.stdout + r.stderr
def original_lines(patch):
    """removed lines must come from the first commit"""
    bad = []; n = 0; f = None
    for l in open(patch):
        if l.startswith('--- a/'): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: i = int(m.group(1)) - 1; continue
        if f is None or l.startswith(('---', '+++', 'diff', 'index')): continue
        if l[0] in ' -': i += 1
        if l[0] == '-':
            n += 1
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', '-L', '%d,%d' % (i, i), f], capture_output=True, text=True).stdout
            if not b.startswith('^'): bad.append((f, i))
    return n, bad
def one(sid):
    d = os.path.join(HERE, 'seeded', sid); meta = json.load(open(os.path.join(d, 'meta.json'))); out = []
    n, bad = original_lines(os.path.join(d, 'patch.diff'))
    out.append('removes %d original lines%s' % (n, ' NOT-ORIGINAL %s' % bad if bad or not n else ''))
    root = tempfile.mkdtemp(prefix='seed_%s_' % sid); cp = root + '/repo'
    try:
        sh(['cp', '-a', '/repo', cp], '/'); env = dict(ENV, PYTHONPATH=cp)
        ddir = root + '/demo'; shutil.copytree(d, ddir, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        r0, o0 = sh(['bash', ddir + '/demo.sh'], cp, dict(ENV), 300)
        rc, o = sh(['git', 'apply', os.path.join(d, 'patch.diff')], cp)
        if rc: return sid, ['PATCH DOES NOT APPLY ' + o]
        r1, o1 = sh(['bash', ddir + '/demo.sh'], cp, dict(ENV), 300)
        out.append('demo %s/%s%s' % (r0, r1, '' if r0 == 0 and r1 != 0 else ' DEMO-BAD\n' + o0[-1500:] + '\n----\n' + o1[-1500:]))
        out.append('   ' + (o1.strip().splitlines() or [''])[-1][:200])
        if not nocheck:
            t = time.time()
            rc, o = sh([sys.executable, os.path.join(HERE, 'check.py'), meta['property'], '--tier', 'quick'], HERE,
                       dict(os.environ, DST_REPO=cp, VERIF_SEED='1', DST_EVIDENCE=root, DST_REPLAYS=root), 900)
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            out.append('check %s rc=%d %s (%.0f s)' % ('CAUGHT' if rc == 1 and v else 'MISSED', rc, v[:1], time.time() - t))
            if rc == 1: out.append('   ' + ' | '.join(o.strip().splitlines()[-6:])[:600])
            if rc not in (0, 1): out.append(o[-2000:])
        if not notests:
            for p in ('model.pkl', 'results/test_save.pkl', 'sample_results'):
                sh(['rm', '-rf', cp + '/testing/' + p], '/')
            rc, o = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
                        '-o', 'junit_family=xunit2', '--junitxml=' + root + '/j.xml'], cp + '/testing', env, 1200)
            ok = set()
            for c in ET.parse(root + '/j.xml').iter('testcase'):
                if not len([x for x in c if x.tag in ('failure', 'error', 'skipped')]): ok.add((c.get('classname'), c.get('name')))
            passed = {s for s in STABLE if any(s.endswith(c + '::' + nme) or s.endswith(c.split('.', 1)[-1] + '::' + nme) for c, nme in ok)}
            out.append('tests %d/%d%s' % (len(passed), len(STABLE), '' if passed == STABLE else ' TESTS-FAIL %s' % sorted(STABLE - passed)[:3]))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return sid, out
jobs = int(os.environ.get('J', '4' if nocheck else '1'))
with ThreadPoolExecutor(jobs) as ex:
    for sid, out in ex.map(one, ids):
        print('==', sid); [print('  ', x) for x in out]; sys.stdout.flush()
