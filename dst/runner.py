"""Seeded search: generate cases from (VERIF_SEED, index), execute each in a forked child of a pristine zygote, aggregate coverage,
minimise and write replay files."""
import gc
import os, sys, json, time, hashlib, select, signal, traceback, struct, re, copy
from collections import Counter
from .rng import Rng, derive

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CLEANUP = []

class Harness(Exception):
    """something is wrong with the machinery, not with do-mpc"""

class Violation(Exception):
    def __init__(self, prop, cls, msg): super().__init__(msg); self.prop = prop; self.cls = cls; self.msg = msg

class Outcome:
    def __init__(self):
        self.viol = []; self.stats = Counter(); self.cover = set(); self.sim_time = 0.0; self.nontrivial = False
        self.rec = {}; self.hash = ''; self.faults = Counter(); self.error = None; self.summary = None
        self._h = hashlib.sha256()
    def log(self, *x): self._h.update(repr(x).encode())
    def violation(self, prop, cls, msg):
        if len(self.viol) < 20: self.viol.append({'prop': prop, 'cls': cls, 'msg': str(msg)[:1500]})
    def to_json(self):
        return dict(viol=self.viol, stats=dict(self.stats), cover=sorted(map(str, self.cover)), sim_time=self.sim_time,
                    nontrivial=bool(self.nontrivial), rec=self.rec, hash=self.hash or self._h.hexdigest()[:24], faults=dict(self.faults),
                    error=self.error, summary=self.summary)

def in_domain(tb, prefix=None):
    """does the traceback pass through do_mpc?"""
    from . import load
    pre = load.PKG
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pre): return True
        tb = tb.tb_next
    return False

class Check:
    pid = None
    runs = {'quick': 400, 'thorough': 20000}
    cap = {'quick': 60, 'thorough': 1500}
    batch = 10
    case_timeout = 60
    rule = ''
    real = []          # components running real code
    stub = []
    assumptions = []
    technique = 'deterministic simulation with fault injection (seeded search)'
    shrink_lists = []  # paths ('a','b') to JSON lists in the case that may be thinned out
    def gen(self, rng, idx, tier): raise NotImplementedError
    def run(self, case, out): raise NotImplementedError
    def simplify(self, case):
        """yield simpler variants of a case (beyond thinning lists)"""
        return ()
    def prepare(self): pass

# ------------------------------------------------------------------ execution in children
def _child_exec(check, cases, wfd):
    devnull = os.open(os.devnull, os.O_RDWR)
    if not os.environ.get('DST_DEBUG'):
        os.dup2(devnull, 1); os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, 'w'); sys.stderr = sys.stdout
    for tag, case in cases:
        out = Outcome(); t0 = time.perf_counter()
        try:
            check.run(case, out)
        except Violation as v:
            out.violation(v.prop, v.cls, v.msg)
        except BaseException as e:
            if in_domain(e.__traceback__) and not isinstance(e, Harness):
                tbs = traceback.format_exc()
                out.violation(getattr(check, 'pid'), 'unexpected-' + type(e).__name__, tbs[-1500:])
            else:
                out.error = traceback.format_exc()[-3000:]
        d = out.to_json(); d['tag'] = tag; d['wall'] = time.perf_counter() - t0
        data = json.dumps(d).encode()
        os.write(wfd, struct.pack('>I', len(data)))
        mv = memoryview(data)
        while mv:
            n = os.write(wfd, mv); mv = mv[n:]

class Child:
    def __init__(self, check, cases, timeout):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r); os.setpgid(0, 0)
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                _child_exec(check, cases, w); code = 0
            except BaseException:
                try: os.write(2, traceback.format_exc().encode())
                except BaseException: pass
            finally:
                os._exit(code)
        os.close(w)
        self.pid = pid; self.fd = r; self.buf = b''; self.cases = dict((t, c) for t, c in cases); self.order = [t for t, _ in cases]
        self.t0 = time.monotonic(); self.timeout = timeout; self.results = []; self.eof = False; self.status = None; self.killed = False
    def pump(self):
        d = os.read(self.fd, 1 << 20)
        if not d: self.eof = True; return
        self.buf += d
        while len(self.buf) >= 4:
            n = struct.unpack('>I', self.buf[:4])[0]
            if len(self.buf) < 4 + n: break
            self.results.append(json.loads(self.buf[4:4 + n])); self.buf = self.buf[4 + n:]
    def finish(self):
        try: os.close(self.fd)
        except OSError: pass
        if not self.eof or self.killed:
            try: os.killpg(self.pid, signal.SIGKILL)
            except OSError: pass
            try: os.kill(self.pid, signal.SIGKILL)
            except OSError: pass
        _, self.status = os.waitpid(self.pid, 0)
        try: os.killpg(self.pid, signal.SIGKILL)
        except OSError: pass

def run_one(check, case, timeout=None):
    """one case in one fresh child; returns its outcome dict ('hang' / 'crash' are reported as violations)"""
    ch = Child(check, [(0, case)], timeout or check.case_timeout)
    end = time.monotonic() + ch.timeout
    while not ch.eof:
        left = end - time.monotonic()
        if left <= 0: break
        r, _, _ = select.select([ch.fd], [], [], min(left, 1.0))
        if r: ch.pump()
        if ch.results: break
    hung = not ch.results and not ch.eof
    ch.finish()
    if ch.results: return ch.results[0]
    base = dict(stats={}, cover=[], sim_time=0.0, nontrivial=True, rec={}, hash='none', faults={}, error=None, tag=0, wall=0, summary=None)
    if hung: return dict(base, viol=[{'prop': check.pid, 'cls': 'hang', 'msg': 'the run did not terminate within %ss of real time' % ch.timeout}])
    sig = os.WTERMSIG(ch.status) if os.WIFSIGNALED(ch.status) else None
    if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
        return dict(base, viol=[{'prop': check.pid, 'cls': 'process-crash', 'msg': 'the interpreter died with signal %d' % sig}])
    return dict(base, viol=[], error='child ended with status %r without a result' % ch.status)

def sweep(check, cases_iter, jobs, deadline, on_result, stop):
    """run cases; cases_iter yields (tag, case)"""
    it = iter(cases_iter); live = []; retry = []; exhausted = False
    while True:
        while len(live) < jobs and not stop() and time.monotonic() < deadline and not exhausted:
            b = []
            for _ in range(check.batch):
                try: b.append(next(it))
                except StopIteration: exhausted = True; break
            if b: live.append(Child(check, b, check.case_timeout * (1 + len(b) * 0.25)))
        if not live: break
        if stop():
            for c in live: c.killed = True; c.finish()
            live = []; break
        r, _, _ = select.select([c.fd for c in live], [], [], 0.5)
        for c in list(live):
            if c.fd in r: c.pump()
            if c.eof or time.monotonic() - c.t0 > c.timeout:
                live.remove(c); c.killed = not c.eof; c.finish()
                for d in c.results: on_result(d, c.cases[d['tag']])
                got = {d['tag'] for d in c.results}
                miss = [t for t in c.order if t not in got]
                for k, t in enumerate(miss):
                    if k > 0 and (stop() or time.monotonic() > deadline + 30): break
                    d = run_one(check, c.cases[t]); d['tag'] = t
                    if d['viol'] and d['viol'][0]['cls'] in ('hang', 'process-crash'):
                        d2 = run_one(check, c.cases[t], check.case_timeout * 2)     # must reproduce
                        if not d2['viol']: d = d2; d['tag'] = t
                    on_result(d, c.cases[t])

# ------------------------------------------------------------------ minimisation
def _get(case, path):
    for p in path: case = case[p]
    return case
def _set(case, path, val):
    c = copy.deepcopy(case); x = c
    for p in path[:-1]: x = x[p]
    x[path[-1]] = val
    return c

def _ddmin(case, path, fails, end):
    try: lst = list(_get(case, path))
    except (KeyError, IndexError, TypeError): return case
    if not isinstance(_get(case, path), list) or not lst: return case
    n = 2
    c0 = _set(case, path, [])
    if fails(c0): return c0
    while len(lst) >= 2 and time.monotonic() < end:
        size = max(1, len(lst) // n); progressed = False
        for i in range(0, len(lst), size):
            if time.monotonic() > end: break
            cand = lst[:i] + lst[i + size:]
            c = _set(case, path, cand)
            if fails(c):
                lst = cand; case = c; n = max(n - 1, 2); progressed = True; break
        if not progressed:
            if size == 1: break
            n = min(len(lst), n * 2)
    return case

def minimise(check, case, want, budget):
    end = time.monotonic() + budget
    tries = [0]; last = [None]
    def fails(c):
        tries[0] += 1
        d = run_one(check, c)
        ok = any(v['prop'] == want[0] and v['cls'] == want[1] for v in d['viol'])
        if ok: last[0] = d
        return ok
    if not fails(case): return None, None, tries[0]
    def expand(paths):
        for p in paths:
            if '*' in p:
                i = p.index('*')
                try: n = len(_get(case, p[:i]))
                except Exception: continue
                for k in range(n): yield p[:i] + (k,) + p[i + 1:]
            else: yield p
    changed = True; rounds = 0
    while changed and time.monotonic() < end and rounds < 4:
        rounds += 1; before = json.dumps(case, sort_keys=True)
        for p in list(expand(check.shrink_lists)):
            if time.monotonic() > end: break
            case = _ddmin(case, p, fails, end)
        for c in check.simplify(copy.deepcopy(case)):
            if time.monotonic() > end: break
            if json.dumps(c, sort_keys=True) != json.dumps(case, sort_keys=True) and fails(c): case = c
        if 'plan' not in case and last[0] and last[0].get('rec'):
            c = dict(copy.deepcopy(case), plan=last[0]['rec'])
            if fails(c): case = c
        if 'plan' in case:
            for k in sorted(case['plan']):
                case = _ddmin(case, ('plan', k), fails, end)
        changed = json.dumps(case, sort_keys=True) != before
    if not fails(case): return None, None, tries[0]
    return case, last[0], tries[0]

# ------------------------------------------------------------------ known findings
def known_findings(pid):
    res = []
    try: lines = open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')).read().splitlines()
    except FileNotFoundError: return res
    for l in lines:
        m = re.match(r'finding: property=(\S+) cls=(\S+) match=/(.*?)/ (.*)', l)
        if m and m.group(1) == pid: res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return res

# ------------------------------------------------------------------ main entry
def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int); ap.add_argument('--cap', type=float)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('DST_JOBS', '0')) or min(8, os.cpu_count() or 4))
    ap.add_argument('--replay'); ap.add_argument('--first', type=int, default=0)
    ap.add_argument('--keep-going', action='store_true')
    a = ap.parse_args(argv)
    pid = check.pid
    sys.stdout.reconfigure(line_buffering=True)
    t_start = time.monotonic()
    if a.replay:
        case = json.load(open(a.replay))
        check.prepare(); gc.collect(); gc.freeze()      # objects made so far need no further collection
        d = run_one(check, case['case'])
        mine = [v for v in d['viol'] if v['prop'] == pid]
        print('replay hash', d['hash'], 'recorded', case.get('hash'))
        for v in mine: print('  %s/%s: %s' % (v['prop'], v['cls'], v['msg']))
        if d['error']: print(d['error'])
        if mine: print('VIOLATION property=%s replay=%s' % (pid, a.replay)); return 1
        return 2 if d['error'] else 0
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    runs = a.runs or check.runs[a.tier]; cap = a.cap or check.cap[a.tier]
    print('%s seed=%d tier=%s runs<=%d cap=%ss jobs=%d' % (pid, a.seed, a.tier, runs, cap, a.jobs))
    try:
        check.prepare(); gc.collect(); gc.freeze()      # objects made so far need no further collection
    except BaseException as e:
        # importing or preparing failed: is it do-mpc?
        if in_domain(e.__traceback__) and not isinstance(e, Harness):
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            p = os.path.join(VERIF, 'replays', '%s-import.json' % pid)
            json.dump({'property': pid, 'case': None, 'msg': traceback.format_exc()}, open(p, 'w'))
            print(traceback.format_exc()); print('VIOLATION property=%s replay=%s' % (pid, p)); return 1
        raise
    known = known_findings(pid); known_hits = Counter()
    tot = Counter(); faults = Counter(); cover = set(); hashes = set(); nontriv = 0; sim_time = 0.0; errors = []; fails = []; samples = []
    recheck = []; wall_cases = 0.0; othr = Counter()
    def gen_cases():
        for i in range(a.first, a.first + runs):
            rng = Rng(a.seed, pid, i)
            yield i, dict(check.gen(rng, i, a.tier), idx=i)
    evals = 0
    def on_result(d, case):
        nonlocal nontriv, sim_time, evals, wall_cases
        evals += 1; wall_cases += d.get('wall', 0)
        if d['error']: errors.append((d['tag'], d['error'])); return
        for k, v in d['stats'].items(): tot[k] += v
        for k, v in d['faults'].items(): faults[k] += v
        cover.update(d['cover']); sim_time += d['sim_time']
        if d['nontrivial'] and d['hash'] not in hashes: nontriv += 1
        hashes.add(d['hash'])
        if len(samples) < 4 and d['nontrivial']:
            samples.append({'case': _short(case), 'summary': d.get('summary'), 'hash': d['hash']})
        if len(recheck) < (8 if a.tier == 'quick' else 60) and not d['viol'] and (d['tag'] % 7 == 3): recheck.append((case, d['hash']))
        for v in d['viol']:
            if v['prop'] != pid: othr[v['prop'] + '/' + v['cls']] += 1; continue
            k = [x for x in known if x[0] == v['cls'] and x[1].search(v['msg'])]
            if k: known_hits[k[0][2]] += 1
            else: fails.append((d['tag'], case, v))
    deadline = time.monotonic() + cap
    sweep(check, gen_cases(), a.jobs, deadline, on_result, lambda: (bool(fails) and not a.keep_going) or len(errors) > 20)
    mism = 0
    if not fails:
        for case, h in recheck:
            d = run_one(check, case)
            if d['hash'] != h: mism += 1; print('note: run %s did not repeat exactly (%s vs %s)' % (case['idx'], d['hash'], h))
    wall = time.monotonic() - t_start
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=nontriv, rule=check.rule, samples=samples,
                            distinct_executions=len(hashes), simulated_seconds=round(sim_time, 3), faults_injected=dict(sorted(faults.items())),
                            counters=dict(sorted(tot.items())), interleaving_points_reached=len(cover),
                            runs_per_hour=int(evals / max(wall, 1e-6) * 3600), replayed_twice=len(recheck), replay_mismatches=mism,
                            real_components=check.real, stubbed_components=check.stub, violations_of_other_properties_seen=dict(othr)),
              assumptions=check.assumptions, wall_s=round(wall, 2), violations=len(fails))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    evf = os.path.join(VERIF, 'evidence', '%s.json' % pid)
    json.dump(ev, open(evf, 'w'), indent=1, default=str)
    print('%s: %d runs (%d distinct non-trivial), %d faults, %.0f simulated s, %.1f s wall, errors=%d, others=%s' % (
        pid, evals, nontriv, sum(faults.values()), sim_time, wall, len(errors), dict(othr)))
    for what, n in known_hits.items(): print('KNOWN-FINDING: property=%s %s (seen %d times)' % (pid, what, n))
    if fails:
        fails.sort(key=lambda f: f[0])
        if a.keep_going:
            cl = Counter((f[2]['cls']) for f in fails); print('classes:', dict(cl))
            seen = set()
            for f in fails:
                if f[2]['cls'] not in seen: seen.add(f[2]['cls']); print(f[0], f[2])
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        tag, case, v = fails[0]
        try: small, d, tries = minimise(check, case, (v['prop'], v['cls']), 60 if a.tier == 'quick' else 240)
        except Exception: traceback.print_exc(); small, d, tries = None, None, 0
        note = 'minimised in %d runs' % tries
        if small is None:
            # depends on process history: replay the batch prefix? keep the raw case
            small, d, note = case, {'hash': None, 'viol': [v]}, 'not reproduced in isolation'
        p = os.path.join(VERIF, 'replays', '%s-seed%d-run%d.json' % (pid, a.seed, tag))
        mv = next((x for x in d['viol'] if x['prop'] == v['prop'] and x['cls'] == v['cls']), v)
        json.dump({'property': pid, 'seed': a.seed, 'run': tag, 'class': v['cls'], 'msg': mv['msg'], 'hash': d['hash'], 'case': small, 'note': note},
                  open(p, 'w'), indent=1)
        print('  run %d, %s: %s\n  %s' % (tag, v['cls'], mv['msg'], note))
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if errors:
        print('HARNESS ERROR in %d runs, first (run %s):\n%s' % (len(errors), errors[0][0], errors[0][1])); return 2
    if evals == 0: print('no run was executed'); return 2
    return 0

def _short(case):
    s = json.dumps(case)
    return case if len(s) < 1500 else s[:1500] + '...'
