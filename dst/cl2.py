"""C07, C13, C14, C15: several objects, several threads, compiled solvers, the environment."""
import os, sys, json, pickle, itertools
import numpy as np
from .runner import Check, Violation, Harness
from .rng import Rng
from . import load, mods, sched
from .loops import *
from .cl import *
from .cl import ClCheck, AnyCheck, xidx

# ------------------------------------------------------------------ C13
def fields(o):
    """[(data field, [(name, size)])] in model order"""
    if o['kind'] == 'lqr':
        c = o['c']
        if c['names']: return [('_x', [('x%d' % i, 1) for i in range(c['nx'])]), ('_u', [('u%d' % i, 1) for i in range(c['nu'])])]
        return [('_x', [('x', c['nx'])]), ('_u', [('u', c['nu'])])]
    s = o['s']; r = [('_x', mods.xnames(s)), ('_u', mods.unames(s)), ('_aux', [('default', 1)] + mods.auxnames(s))]
    if not s['nu']: del r[1]
    if s['nz']: r.append(('_z', mods.znames(s)))
    if s['np']: r.append(('_p', mods.pnames(s)))
    if s['nt']: r.append(('_tvp', mods.tnames(s)))
    if s['meas'] != 'default' and o['kind'] in ('sim', 'mhe'):
        ny = mods.n_y(s); mu = o['kind'] == 'mhe' or o.get('meas_u')
        r.append(('_y', [('ym', 1)] + [('ym%d' % i, 1) for i in range(1, ny)] + ([('um' + n[1:], k) for n, k in mods.unames(s)] if mu else [])))
    return r
def power(e): return tuple(slice(*x[1:]) if isinstance(x, list) else x for x in e)
def columns(fs, q):
    """columns of the recorded field a power index means"""
    names = dict(fs)[q[0]]; o = 0; ix = []
    for n, k in names:
        if len(q) == 1 or n == q[1]: ix += list(range(o, o + k))
        o += k
    if len(q) > 2: ix = np.arange(o)[ix][q[2]]
    return list(np.atleast_1d(ix))

class C13(ClCheck):
    pid = 'C13'
    batch = 12
    runs = {'quick': 1200, 'thorough': 40000}
    shrink_lists = [('ops',), ('readers',), ('readers', '*')]
    rule = 'at least one query ran while a step was in progress and at least two thread switches happened inside queries; distinct if results and schedules differ'
    def gen_query(self, rng, o):
        fs = fields(o); q = {'at': [rng.randint(0, 5), rng.randint(0, 260)]}
        r = rng.random()
        if r < 0.08: q['k'] = 'export'
        elif r < 0.12: q['k'] = 'pickle'
        elif r < 0.2: q['k'] = 'data'; q['i'] = [rng.pick(fs)[0]] if rng.chance(0.7) else ['_time']
        else:
            pred = o['kind'] == 'mpc' and o['c']['full'] and rng.chance(0.6)
            f, ns = rng.pick([x for x in fs if not pred or x[0] in ('_x', '_u', '_z', '_tvp', '_aux')]); n, k = rng.pick(ns); i = [f, n]
            if k > 1 and rng.chance(0.6): i.append(rng.pick([0, 1, -1, ['s', 0, 1], ['s', 1, None]]) if not pred else rng.pick([0, 1]))
            q['k'] = 'pred' if pred else 'data'; q['i'] = i
            if pred: q['t'] = rng.pick([-1, -1, -1, 0, 1, -2])
        if rng.chance(0.1): q['int'] = rng.randint(1, 14)
        return q
    def gen(self, rng, idx, tier):
        o = gen_any(rng, ('mpc', 'mpc', 'sim', 'mhe', 'lqr')); k = o['kind']
        if k == 'mpc':
            o['c']['full'] = rng.chance(0.9)
            if not o['s']['nt'] and rng.chance(0.3): o['s']['nt'] = 1
        if k in ('sim', 'mpc') and not o['s']['nz'] and rng.chance(0.3): o['s']['nz'] = 1
        ops = []
        for _ in range(rng.randint(2, 5)):
            if rng.chance(0.1): ops.append({'op': 'reset', 'init': gen_init(rng, o)} if k != 'lqr' else {'op': 'reset'})
            if rng.chance(0.08): ops.append({'op': 'sett', 't': rng.pick([0, 3, 1.5, 10.25])})
            p = gen_step(rng, o)
            if rng.chance(0.25):
                f = gen_fault(rng, o)
                if f['k'] != 'int': p['fault'] = f
            ops.append(p)
        return dict(o=o, init=gen_init(rng, o), ops=ops, readers=[[self.gen_query(rng, o) for _ in range(rng.randint(2, 9))] for _ in range(rng.pick([1, 2, 2, 3]))],
                    warm=rng.chance(0.3), pre=rng.pick([0.05, 0.15, 0.4]), seed=rng.randint(0, 1 << 40))
    def run(self, case, out):
        o = case['o']; k = o['kind']; L = build(self.dm, o, out); L.init(**case['init']); pid = self.pid; ob = obj(L); data = ob.data; fs = fields(o)
        plan = case.get('plan'); rng = Rng(case['seed'], 'c13')
        sim = sched.Sim(rng=None if plan else rng, plan=plan.get('sched', []) if plan else None, preempt_p=case['pre'], max_lines=3_000_000)
        epochs = [{'n': 0, 'arr': None}]; pos = [0, 0]; asked = []; waiting = []; intr = {}; yproc = [None]; failed = [False]; bound = {}
        def snap(): return {f: np.array(getattr(data, f)) for f in data.data_fields}
        epochs[0]['arr'] = snap(); main_t = [None]
        def on_line(t, site):
            if t is main_t[0]:
                pos[1] += 1
                if waiting:
                    for w in [w for w in waiting if w[0] <= tuple(pos)]: waiting.remove(w); sim.wake(w[1])
            elif t.id in intr:
                intr[t.id] -= 1
                if intr[t.id] <= 0: del intr[t.id]; out.faults['interrupted query'] += 1; raise KeyboardInterrupt()
        def reader(qs):
            t = sched.cur_thread()
            for q in qs:
                if tuple(q['at']) > tuple(pos) and main_t[0] is not None: waiting.append((tuple(q['at']), t)); sim.block()
                e0 = len(epochs) - 1 - (epochs[-1]['arr'] is None); n0, inside = epochs[e0]['n'], main_t[0] is not None and pos[1] > 0; sw = sim.switches; y0 = len(yproc) - 1
                if q.get('int'): intr[t.id] = q['int']
                try: r = self.ask(data, q)
                except KeyboardInterrupt: r = KeyboardInterrupt()
                except Exception as e: r = e
                intr.pop(t.id, None)
                asked.append((q, e0, n0, len(epochs) - 1, epochs[-1]['n'], r, [v for v in yproc[y0:] if v]))
                out.stats['queries'] += 1; out.stats['queries during a step'] += inside; out.stats['switches in queries'] += sim.switches > sw
        def main():
            if case['warm']:
                for r in case['readers']:
                    for q in r[:1]:
                        try: self.ask(data, q)
                        except Exception: pass
            main_t[0] = sched.cur_thread()
            for i, qs in enumerate(case['readers']): sim.spawn(lambda qs=qs: reader(qs), 'reader%d' % i)
            for i, op in enumerate(case['ops']):
                pos[0] = i; pos[1] = 0; f = op.get('fault'); what = '%s op %d %s' % (k, i, op['op'])
                yproc.append(op.get('y'))
                if op['op'] == 'reset': epochs.append({'n': 0, 'arr': None})
                res, _ = do(L, op)
                if op['op'] == 'reset': epochs[-1]['arr'] = snap()
                if not L.expect_ok(res, f, pid, what + ' while results were queried'): failed[0] = True; break
                if op['op'] == 'step' and res[0] == 'ok': epochs[-1]['n'] += 1; epochs[-1]['arr'] = snap()
            pos[0] = 10 ** 6; main_t[0] = None
            for w in list(waiting): sim.wake(w[1])
            del waiting[:]
        sim.on_line = on_line
        sim.run(main)
        out.rec = {'sched': sim.dev}
        if sim.thread_excs: raise sim.thread_excs[0][1]
        if failed[0]: return
        if sim.aborting: raise Harness('aborted: %s' % sim.aborting)
        for q in asked:
            if not self.judge(L, o, fs, epochs, q, out): return
        if not check_rows(L, k, out, pid, '%s after the readers finished' % k, 1e-5): return
        for name in sorted(set(json.dumps([q['k'], q['i']]) for r in case['readers'] for q in r if 'i' in q)):      # the indices stored meanwhile
            kk, i = json.loads(name); n = epochs[-1]['n']
            q = {'k': kk, 'i': i, 't': -1}
            try: r = self.ask(data, q)
            except Exception as e: r = e
            if not self.judge(L, o, fs, epochs, (q, len(epochs) - 1, n, len(epochs) - 1, n, r, None), out): return
        self.final(L, o, fs, epochs, out)
        if out.viol: return
        out.log(sim.dev, [e['n'] for e in epochs], [repr(np.shape(a[5])) for a in asked if not isinstance(a[5], (dict, BaseException))])
        out.cover |= set('%s>%s' % x for x in sim.sites); out.stats['steps'] += sum(e['n'] for e in epochs); out.stats['thread switches'] += sim.switches
        out.sim_time = sum(e['n'] for e in epochs) * (o['c']['tstep'] if k == 'lqr' else o['s']['tstep'])
        out.nontrivial = out.stats['queries during a step'] >= 1 and out.stats['switches in queries'] >= 2
        out.summary = '%s: %d queries by %d readers' % (k, len(asked), len(case['readers']))
    def final(self, L, o, fs, epochs, out): pass
    def ask(self, data, q):
        if q['k'] == 'export': return {f: np.array(v) for f, v in data.export().items()}
        if q['k'] == 'pickle':
            d = pickle.loads(pickle.dumps(data)); return {f: np.array(d[f]) for f in d.data_fields}
        if q['k'] == 'pred': return np.array(data.prediction(power(q['i']), q['t']))
        i = power(q['i'])
        return np.array(data[i if len(i) > 1 else i[0]])
    def judge(self, L, o, fs, epochs, a, out):
        q, e0, n0, e1, n1, r, y = a; pid = self.pid; what = '%s %s' % (q['k'], tuple(q.get('i', ())))
        if isinstance(r, KeyboardInterrupt) and q.get('int'): return True
        if q['k'] == 'pred': return self.judge_pred(L, o, epochs, a, out, what)
        if isinstance(r, BaseException): out.violation(pid, 'query-failed', '%s raised %r' % (what, r)); return False
        for f, got in (r.items() if isinstance(r, dict) else [(q['i'][0], r)]):
            cols = columns(fs, power(q['i'])) if 'i' in q and len(q['i']) > 1 else None
            why = None; ok = False
            for e in range(e0, e1 + 1):
                A = epochs[e]['arr'][f]; lo = n0 if e == e0 else 0; hi = min(epochs[e]['n'], (n1 if e == e1 else epochs[e]['n']) + 1)
                if A.shape[0] == 0 and lo: lo = 0            # a field that is never recorded
                g = got if got.ndim == 2 else got.reshape(got.shape[0], -1)
                w = A if cols is None else A[:, cols]
                if g.shape[0] < lo and e == e1: why = '%d rows although %d steps were completed before' % (g.shape[0], lo); continue
                if f == '_y' and y and 0 < g.shape[0] <= (n1 if e == e1 else epochs[e]['n']) + 1 and np.array_equal(g[:-1], w[:g.shape[0] - 1]) and any(np.array_equal(g[-1], np.array(v) if cols is None else np.array(v)[cols]) for v in y): ok = True; break      # the measurement of a step in progress (which may fail)
                if g.shape[0] > hi: why = '%d rows after %d steps' % (g.shape[0], hi); continue
                if g.shape[1] != w.shape[1]: why = '%d columns instead of %d' % (g.shape[1], w.shape[1]); continue
                if not np.array_equal(g, w[:g.shape[0]], equal_nan=True): why = 'values %s, recorded are %s' % (sh(g), sh(w[:g.shape[0]])); continue
                ok = True; break
            if not ok: out.violation(pid, 'query-wrong', '%s while steps %d to %d of run %d were completed: field %s has %s' % (what, n0, n1, e1, f, why)); return False
        return True
    def predicted(self, L, o, i, arr_, j):
        """the documented meaning of a prediction query, element by element"""
        c, s, m = o['c'], o['s'], L.mpc; f = i[0]; N, nr, nc = c['N'], c['nr'], c['ncomb']; ns = nc ** nr
        node = lambda k, q: q // nc ** (nr - min(k, nr))
        size = dict(dict(fields(o))[f])[i[1]] if len(i) == 2 else 1
        K = N + 1 if f in ('_x', '_tvp') else N; S = 1 if f == '_tvp' or (f == '_u' and c['open_loop']) else ns
        res = np.zeros((size, K, S))
        st = {'_tvp': lambda: m.opt_p(arr_['opt_p_num'][j]), '_aux': lambda: m.data.opt_aux(arr_['_opt_aux_num'][j])}.get(f, lambda: m.opt_x(arr_['_opt_x_num'][j]))() if j >= 0 else None
        if st is None: return res
        for k in range(K):
            for q in range(S):
                ix = {'_x': ('_x', k, node(k, q), -1), '_u': ('_u', k, 0 if c['open_loop'] else node(k, q)), '_z': ('_z', k, node(k + 1, q), -1), '_tvp': ('_tvp', k), '_aux': ('_aux', k, node(k, q))}[f]
                res[:, k, q] = flat(st[ix + tuple(i[1:])])
        return res
    def judge_pred(self, L, o, epochs, a, out, what):
        q, e0, n0, e1, n1, r, y = a; pid = self.pid; t = q['t']
        if isinstance(r, BaseException):
            if not o['c']['full'] and isinstance(r, AssertionError): return True
            if isinstance(r, IndexError) and t == -2 and (n0 < 2 or e1 > e0): return True
            if isinstance(r, IndexError) and t >= 0 and (t >= max(n0, 1) or e1 > e0): return True
            out.violation(pid, 'query-failed', 'prediction(%s, %d) raised %r' % (what, t, r)); return False
        for e in range(e0, e1 + 1):
            A = epochs[e]['arr']; n = epochs[e]['n']; lo = n0 if e == e0 else 0; hi = n1 + 1 if e == e1 else n
            js = [j for j in range(max(lo, 0) - 1, min(hi, n))] if t == -1 else [j - 1 for j in range(max(lo, 2) - 1, min(hi, n))] if t == -2 else [t] if t < n else []
            if t == 0 and lo == 0: js = js + [-1]
            for j in js:
                w = self.predicted(L, o, power(q['i']), A, j)
                if w.shape == r.shape and np.allclose(w, r, rtol=1e-12, atol=1e-12, equal_nan=True): return True
        out.violation(pid, 'prediction-wrong', 'prediction(%s, %d) while steps %d to %d were completed: %s has shape %s; expected %s with shape %s' % (what, t, n0, n1, sh(r), r.shape, sh(w) if js else '?', w.shape if js else '?')); return False

# ------------------------------------------------------------------ C14
import re, subprocess, tempfile, shutil
from . import proc_sim
class Crash(BaseException): pass
LIBS = ['nlp.so', './nlp.so', 'sub/other.so']
FAILS = ['rc', 'rc-partial', 'rc-file', 'kill-partial', 'int-partial', 'int-file', 'crash-partial', 'crash-none', 'nofile', 'gen']

class C14(ClCheck):
    pid = 'C14'
    batch = 3
    cap = {'quick': 20, 'thorough': 1500}
    runs = {'quick': 400, 'thorough': 20000}
    rule = 'at least one compilation was faulted or several problems shared a library name, and at least two steps were made afterwards; distinct if results and outcomes differ'
    real = ClCheck.real + ['gcc (with -O0), dlopen']
    stub = STUB + ['outcome of faulted compilations']
    def gen(self, rng, idx, tier):
        o = gen_any(rng, ('mpc', 'mpc', 'mhe')); c = o['c']; c['N'] = min(c['N'], 3); c['ni'] = 1; c['deg'] = min(c['deg'], 2)
        if o['kind'] == 'mpc': c['nr'] = min(c['nr'], 1, c['N']); c['ncomb'] = c['ncomb'] if c['nr'] or c['pmode'] == 'values' else 1
        ops = []; n = rng.pick([1, 2, 2])
        for _ in range(rng.randint(4, 9)):
            i = rng.randint(0, n - 1)
            if rng.chance(0.45):
                p = {'op': 'compile', 'c': i, 'ow': rng.randint(0, 1), 'lib': rng.pick([0, 0, 0, 1, 2]), 'cmd': rng.randint(0, 1) if rng.chance(0.3) else 0}
                if rng.chance(0.55): p['out'] = rng.pick(FAILS)
                elif rng.chance(0.2): p['int'] = rng.randint(1, 25)
                ops.append(p)
            elif rng.chance(0.12): ops.append({'op': 'rebuild', 'c': i, 'var': rng.randint(0, 2)})
            else:
                q = gen_step(rng, o); q['c'] = i
                if rng.chance(0.1): q['fault'] = {'k': 'raise'}
                ops.append(q)
            if ops[-1]['op'] == 'compile' and rng.chance(0.7): q = gen_step(rng, o); q['c'] = i; ops.append(q)
        return dict(o=o, init=gen_init(rng, o), ops=ops, n=n)
    def variant(self, o, v):
        """the same structure, other costs"""
        o = json.loads(json.dumps(o))
        if v:
            c = o['c']
            for k in ('Q', 'Pm', 'Px', 'Pv', 'Pw'):
                if k in c: c[k] = [round(q * (1 + 2.5 * v if j % 2 else 1 / (1 + 3 * v)), 3) for j, q in enumerate(c[k])]
            if 'xs' in c: c['xs'] = [round(-q + 0.3 * v, 3) for q in c['xs']]
        return o
    def run(self, case, out):
        root = tempfile.mkdtemp(prefix='dst_c14_'); old = os.getcwd(); osys = os.system
        self.bin = os.path.join(root, 'bin'); self.ctl = os.path.join(root, 'ctl'); os.mkdir(self.bin)
        for n in ('gcc', 'cc'):
            with open(os.path.join(self.bin, n), 'w') as f: f.write(self.SHIM % shutil.which('gcc'))
            os.chmod(os.path.join(self.bin, n), 0o755)
        root2 = os.path.join(root, 'work'); os.mkdir(root2)
        try:
            os.chdir(root2); os.mkdir('sub'); proc_sim.hook = self.hook; os.system = lambda cmd: self.hook(cmd) << 8 if self.outcome != 'off' else osys(cmd)
            self.go(case, out)
        finally:
            os.system = osys; proc_sim.hook = None; os.chdir(old); shutil.rmtree(root, ignore_errors=True)
    outcome = 'off'
    SHIM = """#!/bin/sh
# stands for the compiler: the real one (without optimisation), then the outcome the simulator decided
: > "$DST_CC.called"
n=$(cat "$DST_CC.outcome"); out=; take=
for a in "$@"; do
  [ "$take" ] && { out=$a; take=; }
  [ "$a" = -o ] && take=1
  case $a in -o?*) out=${a#-o};; esac
done
case $n in rc|nofile|*-none) rc=0;; *) %s "$@" -O0; rc=$?;; esac
[ $rc = 0 ] || exit $rc
case $n in none|gen) exit 0;; esac
: > "$DST_CC.fired"
case $n in *-partial) s=$(stat -c %%s "$out"); truncate -s $((s / 2)) "$out";; esac
case $n in rc*) exit 1;; kill*) kill -9 $$;; esac
exit 0
"""
    def hook(self, cmd):
        """the command is run as given; `gcc` and `cc` are the shim above"""
        oc = self.outcome; ctl = self.ctl
        for f in ('called', 'fired'):
            if os.path.exists(ctl + '.' + f): os.remove(ctl + '.' + f)
        with open(ctl + '.outcome', 'w') as f: f.write(oc or 'none')
        rc = subprocess.call(cmd, shell=isinstance(cmd, str), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, DST_CC=ctl, PATH=self.bin + ':' + os.environ['PATH']))
        self.called = self.called or os.path.exists(ctl + '.called')
        if os.path.exists(ctl + '.fired'):
            self.fired = True
            if oc.startswith('int'): raise KeyboardInterrupt()
            if oc.startswith('crash'): raise Crash()
        return rc
    def go(self, case, out):
        pid = self.pid; n = case['n']; var = [0] * n; A, B = [None] * n, [None] * n; files = {}; ns = nf = 0; shared = False
        def new(i):
            o = self.variant(case['o'], var[i] + 3 * i); A[i], B[i] = build(self.dm, o, out), build(self.dm, o, out)
            A[i].init(**case['init']); B[i].init(**case['init']); A[i].compiled = False
        for i in range(n): new(i)
        for j, op in enumerate(case['ops']):
            i = op['c']; a, b = A[i], B[i]; what = '%s %d op %d %s %s' % (case['o']['kind'], i, j, op['op'], op.get('out', ''))
            if op['op'] == 'rebuild': var[i] = op['var']; new(i); continue
            if op['op'] == 'compile':
                lib = os.path.normpath(LIBS[op['lib']]); prob = (i, var[i]); st = files.get(lib); ow = bool(op['ow']); cname = 'nlp.c' if op['lib'] < 2 else 'other.c'
                if st and st[0] != prob and st[1] != 'incomplete': ow = True; shared = True
                cmd = 'gcc -fPIC -shared -O1 %s -o %s' % (cname, LIBS[op['lib']]) if op['cmd'] else None
                self.called = self.fired = False; self.outcome = op.get('out')
                if self.outcome == 'gen': cname = 'no/such/dir/nlp.c'
                inj = {'k': 'int', 'n': op['int']} if op.get('int') else None; crash = False; names = []
                try:
                    try: res = a.call(lambda: obj(a).compile_nlp(overwrite=ow, cname=cname, libname=LIBS[op['lib']], compiler_command=cmd), inj)
                    except Crash: crash = True; res = ('err', None)
                finally: self.outcome = 'off'
                if op.get('out') == 'gen': self.fired = res[0] == 'err'
                bad = self.fired or (inj and a.last.fired); nf += bool(bad)
                if bad: out.faults[op.get('out', 'int')] += 1
                if res[0] == 'err' and not bad:
                    out.violation(pid, 'spurious-error', '%s: compile_nlp(overwrite=%s) failed although nothing was wrong: %r' % (what, ow, res[1])); return
                if res[0] == 'ok' and self.fired:
                    out.violation(pid, 'failure-swallowed', '%s: the compiler failed (%s), compile_nlp returned as if the compiled problem were in use' % (what, op['out'])); return
                if res[0] == 'ok': a.compiled = True; files[lib] = (prob, 'complete')
                elif self.fired and op['out'] != 'gen': files[lib] = (prob, 'incomplete')
                elif bad: files[lib] = (prob, 'unknown') if not (st and st[1] == 'incomplete' and not self.called) else st
                out.log('compile', res[0], bool(bad))
                if crash:
                    for q in range(n): new(q)
                continue
            seen = []
            def obs(proxy, kw, r, stats): seen.append(isinstance(proxy.__dict__['_args'][1], str))
            ra = a
            load.Faults.observer = obs
            try: ra, _ = do(a, op)
            finally: load.Faults.observer = None
            if not a.expect_ok(ra, op.get('fault'), pid, what): return
            rb, _ = do(b, op)
            if not b.expect_ok(rb, op.get('fault'), pid, what + ' (never compiled)'): return
            if ra[0] != rb[0]: raise Harness('outcomes differ')
            if ra[0] == 'err': continue
            if a.compiled and seen and not seen[-1]: out.violation(pid, 'not-used', '%s: compile_nlp returned normally, but the step was not solved with the compiled library' % what); return
            if not (good(a) and good(b)): 
                if good(a) != good(b): out.stats['one unsolved'] += 1
                return
            d = diff({'result': result(a, ra)}, {'result': result(b, rb)}, 1e-4)
            if d: out.violation(pid, 'other-problem', '%s%s: differs from the same controller without compilation: %s' % (what, ' with a compiled solver' if a.compiled else '', d)); return
            if not a.check_plan(pid, what, opt=False): return
            ns += 1; out.log(np.round(result(a, ra), 4).tolist())
        out.stats['steps'] += ns; out.sim_time = ns * case['o']['s']['tstep']; out.nontrivial = ns >= 2 and (nf >= 1 or shared)
        out.summary = '%d steps, %d faulted compilations' % (ns, nf)

# ------------------------------------------------------------------ C15
import random, socket, struct
def clean(v):
    """run times and the solver's own clocks are excluded"""
    return {k: x for k, x in v.items() if not k.startswith('data.t_')}
def export_all(L):
    d = {'x0': flat(obj(L).x0), 'u0': flat(obj(L).u0), 't0': flat(obj(L).t0)}
    if not isinstance(L, LqrLoop): d['z0'] = flat(obj(L).z0)
    for k, v in obj(L).data.export().items():
        if k.startswith('t_') or k in ('return_status', 'iterations'): continue
        d['data.' + k] = np.array(v, float)
    return d
class Dummy:
    def __init__(self): from collections import Counter; self.faults = Counter(); self.stats = Counter(); self.cover = set(); self.viol = []
    def violation(self, *a): self.viol.append(a)
    def log(self, *a): pass

def run_loop(dm, case, step, model=None):
    """the whole loop; step(i, fn) executes operation i somewhere"""
    o = case['o']; out = Dummy(); box = {}; res = []
    def mk(): L = build(dm, o, out, model=model); L.init(**case['init']); box['L'] = L
    step(-1, mk); L = box['L']
    for i, op in enumerate(case['ops']):
        def one(): box['r'] = do(L, op)[0]
        step(i, one); r = box['r']
        res.append(['ok', result(L, r).tolist(), bool(good(L))] if r[0] == 'ok' and r[1] is not None else ['ok', [], True] if r[0] == 'ok' else ['err', [], type(r[1]).__name__])
    t = np.concatenate([[0.0]] + [np.asarray(v, float).reshape(-1) for k, v in obj(L).data.export().items() if k.startswith('t_')])
    return dict(res=res, neg=[float(x) for x in t if x < 0], export={k: [list(np.shape(v)), np.asarray(v, float).reshape(-1).tolist()] for k, v in export_all(L).items()}, faults=dict(out.faults))

def compare(A, B, tol):
    """two results of run_loop: (number of steps compared, difference or None)"""
    ns = 0
    for i, (a, b) in enumerate(zip(A['res'], B['res'])):
        if a[0] != b[0] or a[2] != b[2]: return ns, 'op %d: %s instead of %s' % (i, b, a)
        if a[0] == 'ok' and a[2] and not close(b[1], a[1], tol): return ns, 'op %d: %s instead of %s' % (i, sh(b[1]), sh(a[1]))
        if a[0] == 'ok' and not a[2]: break
        ns += a[0] == 'ok' and len(a[1]) > 0
    else:
        ea, eb = ({k: np.array(v[1], float).reshape(v[0]) for k, v in q['export'].items()} for q in (A, B))
        d = diff(eb, ea, tol) or diff(ea, eb, tol)
        if d: return ns, 'records: %s' % d
    return ns, None

class HashServers:
    """processes with other hash seeds that run parts of a case"""
    SEEDS = (323, 377)      # sets of the names in use are ordered differently than with seed 0
    def prepare(self):
        super().prepare(); self.dir = tempfile.mkdtemp(prefix='dst_%s_' % self.pid); self.socks = []; self.procs = []; here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        for h in self.SEEDS:
            p = os.path.join(self.dir, 's%d' % h)
            self.procs.append(subprocess.Popen([sys.executable, '-X', 'faulthandler', '-m', 'dst.hashserver', p], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=None if os.environ.get('DST_DEBUG') else subprocess.DEVNULL, cwd=here, env=dict(os.environ, PYTHONHASHSEED=str(h))))
            self.socks.append(p)
        from . import runner
        runner.CLEANUP.append(self.cleanup)
        import time
        end = time.monotonic() + 120
        while not all(os.path.exists(p) for p in self.socks):
            if time.monotonic() > end or any(p.poll() is not None for p in self.procs): raise Harness('hash server did not start')
            time.sleep(0.05)
    def cleanup(self):
        for p in self.procs:
            p.stdin.close()
            try: p.wait(2)
            except Exception: p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)
    def request(self, i, case):
        s = socket.socket(socket.AF_UNIX); s.connect(self.socks[i]); b = json.dumps(case).encode(); s.sendall(struct.pack('>I', len(b)) + b)
        f = s.makefile('rb'); h = f.read(4)
        if len(h) < 4: raise Harness('hash server died')
        return json.loads(f.read(struct.unpack('>I', h)[0]))

class C15(HashServers, ClCheck):
    pid = 'C15'
    batch = 15
    runs = {'quick': 700, 'thorough': 40000}
    shrink_lists = [('ops',), ('jumps',), ('stalls',), ('env',)]
    rule = 'at least two steps were made under at least one disturbance of the environment, or at least three durations measured; distinct if results and disturbances differ'
    def gen(self, rng, idx, tier):
        if rng.chance(0.25): return self.gen_timer(rng)
        o = gen_any(rng, ('sim', 'mpc', 'mpc', 'mhe', 'lqr')); ops = []
        if o['kind'] == 'mpc' and rng.chance(0.4):
            while not (o['s']['np'] == 2 and min([len(v) for _, v in o['c'].get('pv', ())] + [9]) > 1 and len(o['c'].get('pv', ())) == 2): o = gen_any(rng, ('mpc',))
            o['c']['full'] = rng.chance(0.8)
        for _ in range(rng.randint(2, 6)):
            if rng.chance(0.08): ops.append({'op': 'reset', 'init': gen_init(rng, o)} if o['kind'] in ('mpc', 'mhe') else {'op': 'reset'}); continue
            p = gen_step(rng, o)
            if rng.chance(0.2):
                f = gen_fault(rng, o)
                if f['k'] != 'int': p['fault'] = f
            ops.append(p)
        n = len(ops); env = [e for e in ('clock', 'threads', 'random', 'cwd', 'hash', 'slow', 'environ') if rng.chance(0.55 if e == 'hash' else 0.4)] or ['clock']
        return dict(kind='loop', o=o, init=gen_init(rng, o), ops=ops, env=env, thr=[rng.randint(0, 2) for _ in range(n + 1)], rs=rng.randint(0, 10 ** 6), hs=rng.randint(0, 1),
                    jumps=[[rng.randint(-1, n - 1), rng.randint(1, 400), rng.pick([-1e6, -3600.0, -1.0, -0.01, 0.5, 60.0, 3e7])] for _ in range(rng.randint(1, 6))],
                    stalls=[[rng.randint(-1, n - 1), rng.randint(1, 400), rng.pick([0.001, 1.0, 100.0, 1e5])] for _ in range(rng.randint(1, 4))])
    def gen_timer(self, rng):
        ops = []
        for _ in range(rng.randint(6, 25)):
            ops.append([rng.pick(['tic', 'toc', 'toc', 'sleep', 'sleep', 'jump', 'info']), rng.randint(0, 2), rng.pick([0.0, 1e-4, 0.01, 0.5, 3.0, 200.0]) if rng.chance(0.7) else rng.pick([-1e5, -5.0, -0.1, 1e4])])
        return dict(kind='timer', unit=[rng.pick(['ms', 's', 'min', 'h']) for _ in range(3)], ops=ops)
    def run(self, case, out):
        (self.run_timer if case['kind'] == 'timer' else self.run_twin)(case, out)
    def run_timer(self, case, out):
        pid = self.pid; import io
        T = [self.dm.tools.Timer(unit=u) for u in case['unit']]; S = [None] * 3; D = [[] for _ in T]; n = [0]
        sim = sched.Sim(rng=None, plan=[])
        def main():
            for k, i, v in case['ops']:
                if k == 'sleep': sim.sleep(abs(v))
                elif k == 'jump': sim.jump_wall(v if v else -1.0); out.faults['wall clock jump'] += 1
                elif k == 'tic': T[i].tic(); S[i] = sim.mono
                elif k == 'toc':
                    try: T[i].toc(); ok = True
                    except AssertionError: ok = False
                    if ok != (S[i] is not None): out.violation(pid, 'timer-accepts', 'toc() %s' % ('without tic() was accepted' if ok else 'after tic() was refused')); return
                    if ok: D[i].append(sim.mono - S[i]); S[i] = None; n[0] += 1
                elif k == 'info' and D[i]:
                    old = sys.stdout; sys.stdout = io.StringIO()
                    try: T[i].info(); t = sys.stdout.getvalue().replace('+-', ' ')
                    finally: sys.stdout = old
                    f = {'ms': 1000.0, 's': 1.0, 'min': 1 / 60, 'h': 1 / 3600}[case['unit'][i]]; a = np.array(D[i]) * f
                    got = [float(q) for q in re.findall(r'-?\d+\.?\d*(?:e[-+]?\d+)?', t)]
                    e = [a.mean(), a.std(), a.min(), a.max()]
                    if len(got) != 4 or any(abs(x - y) > 1.01 for x, y in zip(got, e)): out.violation(pid, 'timer-info', 'durations %s: printed %r' % (a.tolist(), t)); return
                for q in range(3):
                    if len(T[q].t_list) != len(D[q]) or not np.allclose(T[q].t_list, D[q], rtol=1e-9, atol=1e-9): out.violation(pid, 'timer-duration', 'measured %s, elapsed were %s' % (T[q].t_list, D[q])); return
        sim.run(main)
        if sim.thread_excs: raise sim.thread_excs[0][1]
        out.sim_time = sim.mono; out.nontrivial = n[0] >= 3; out.log([list(map(lambda v: round(v, 6), t.t_list)) for t in T]); out.stats['durations'] += n[0]; out.summary = 'timers: %d durations' % n[0]
    def run_twin(self, case, out):
        pid = self.pid; env = case['env']
        A = run_loop(self.dm, case, lambda i, fn: fn())
        if 'hash' in env:
            B = self.request(case['hs'], case)
            if 'error' in B: raise Harness('in the other process: ' + B['error'])
        else: B = disturbed(self.dm, case)
        for k, v in A['faults'].items(): out.faults[k] += v
        for e in env: out.faults['environment ' + e] += 1
        if 'clock' in env: out.faults['wall clock jump'] += B['jumps']
        tol = 1e-9 if case['o']['kind'] in ('sim', 'lqr') else 1e-6; ns = 0
        for i, (a, b) in enumerate(zip(A['res'], B['res'])):
            what = '%s op %d, environment changed in %s' % (case['o']['kind'], i, env)
            if a[0] != b[0] or a[2] != b[2]: out.violation(pid, 'outcome', '%s: %s instead of %s' % (what, b, a)); return
            if a[0] == 'ok' and a[2] and not close(b[1], a[1], tol): out.violation(pid, 'result', '%s: %s instead of %s' % (what, sh(b[1]), sh(a[1]))); return
            if a[0] == 'ok' and not a[2]: break
            ns += a[0] == 'ok' and len(a[1]) > 0; out.log(np.round(a[1], 5).tolist())
        else:
            ea, eb = ({k: np.array(v[1], float).reshape(v[0]) for k, v in q['export'].items()} for q in (A, B))
            d = diff(eb, ea, tol) or diff(ea, eb, tol)
            if d: out.violation(pid, 'records', '%s, environment changed in %s: %s' % (case['o']['kind'], env, d)); return
        if B['neg']: out.violation(pid, 'negative-duration', 'recorded run times %s' % B['neg']); return
        out.log(sorted(env)); out.stats['steps'] += ns; out.sim_time = B['vt']; out.nontrivial = ns >= 2
        out.summary = '%s: %d steps, %s' % (case['o']['kind'], ns, '+'.join(env))

def disturbed(dm, case):
    """the loop of the case in a changed environment"""
    env = case['env']; old = os.getcwd(); tmp = None; oenv = dict(os.environ); info = dict(jumps=0, vt=0.0)
    if 'random' in env: random.seed(case['rs']); np.random.seed(case['rs'])
    if 'cwd' in env: tmp = tempfile.mkdtemp(prefix='dst_c15_cwd'); os.chdir(tmp)
    if 'environ' in env: os.environ.update(TZ='Pacific/Kiritimati', LC_ALL='C', LANG='C', USER='somebody'); os.environ.pop('HOME', None)
    try:
        simmed = [e for e in env if e in ('clock', 'threads', 'slow')]
        if not simmed: r = run_loop(dm, case, lambda i, fn: fn())
        else:
            sim = sched.Sim(rng=None, plan=[]); cur = [-2, 0]; box = {}
            J = sorted(map(tuple, case['jumps'])) if 'clock' in env else []; S = sorted(map(tuple, case['stalls'])) if 'slow' in env else []
            def on_line(t, site):
                cur[1] += 1
                while J and (J[0][0] < cur[0] or J[0][0] == cur[0] and J[0][1] <= cur[1]): sim.jump_wall(J.pop(0)[2]); info['jumps'] += 1
                while S and (S[0][0] < cur[0] or S[0][0] == cur[0] and S[0][1] <= cur[1]): sim.sleep(S.pop(0)[2])
            sim.on_line = on_line; workers = {}; me = [None]
            def step(i, fn):
                cur[0], cur[1] = i, 0; w = case['thr'][(i + 1) % len(case['thr'])] if 'threads' in env else 0
                if w == 0: return fn()
                main_t = sched.cur_thread(); exc = []
                def body():
                    try: fn()
                    except BaseException as e: exc.append(e)
                    sim.wake(main_t)
                if w == 1: sim.spawn(body, 'step%d' % i)
                else:
                    if 'w' not in workers:
                        workers['q'] = []
                        def loop():
                            while True:
                                while workers['q']: workers['q'].pop(0)()
                                if workers.get('stop'): return
                                sim.block()
                        workers['w'] = sim.spawn(loop, 'worker'); workers['q'].append(body)
                    else: workers['q'].append(body); sim.wake(workers['w'])
                sim.block()
                if exc: raise exc[0]
            def main():
                try: box['r'] = run_loop(dm, case, step)
                finally:
                    workers['stop'] = True
                    if 'w' in workers: sim.wake(workers['w'])
            sim.run(main)
            if sim.thread_excs: raise sim.thread_excs[0][1]
            if 'r' not in box: raise Harness('aborted: %s' % sim.aborting)
            r = box['r']; info['vt'] = sim.mono
        r.update(info); return r
    finally:
        os.chdir(old); os.environ.clear(); os.environ.update(oenv)
        if tmp: shutil.rmtree(tmp, ignore_errors=True)

# ------------------------------------------------------------------ C07
def fork_later(fn):
    """a pristine copy of this process that runs fn(argument) when the argument is sent"""
    a, b = socket.socketpair()
    pid = os.fork()
    if pid == 0:
        a.close()
        try:
            f = b.makefile('rb'); h = f.read(4)
            if len(h) < 4: os._exit(0)
            try: r = fn(pickle.loads(f.read(struct.unpack('>I', h)[0])))
            except BaseException: import traceback; r = {'error': traceback.format_exc()[-2500:]}
            d = pickle.dumps(r); b.sendall(struct.pack('>I', len(d)) + d)
        finally: os._exit(0)
    b.close()
    def call(x):
        d = pickle.dumps(x); a.sendall(struct.pack('>I', len(d)) + d); f = a.makefile('rb'); h = f.read(4)
        if len(h) < 4: raise Harness('reference process died')
        r = pickle.loads(f.read(struct.unpack('>I', h)[0])); f.close(); a.close(); os.waitpid(pid, 0); return r
    return call

class Inst:
    """one instance and its operations; `shared` maps operation number -> value taken from another instance"""
    def __init__(self, dm, d, models=None): self.dm = dm; self.d = d; self.models = models; self.out = Dummy(); self.obs = []; self.L = None; self.vals = {}
    def create(self):
        d = self.d; o = d['o']; m = None
        if self.models is not None and d.get('share') is not None and o['kind'] != 'lqr':
            key = (d['share'], o['kind'] == 'mhe' or bool(o.get('meas_u')))
            if key not in self.models: self.models[key] = mods.build_model(self.dm, o['s'], meas_u=key[1])
            m = self.models[key]
        self.L = build(self.dm, o, self.out, model=m); self.L.init(**d['init']); self.handles()
        self.note('created', None)
    def handles(self):
        ob = obj(self.L); self.h = {k: getattr(ob, k) for k in ('bounds', 'scaling', 'terminal_bounds') if hasattr(type(ob), k)}
    def note(self, what, r):
        L = self.L; self.obs.append((what, r, self.state()))
    def state(self):
        L = self.L; d = {'state.' + k: v for k, v in export_all(L).items()}; ob = obj(L)
        if L.__class__ in (MpcLoop, MheLoop):
            for (v, side), x in all_bounds(L).items(): d['bounds %s %d' % (v, side)] = np.array(x, float)
            for n, k in mods.xnames(L.s): d['scaling ' + n] = np.array(ob.scaling['_x', n], float).reshape(-1)
            d['guess'] = flat(ob.opt_x_num)
        st = getattr(ob, 'settings', None)
        if st is not None:
            d['settings'] = {k: repr(v) for k, v in vars(st).items() if isinstance(v, (int, float, str, bool, list, dict, tuple, type(None)))}
        return d
    def step(self, i, other=None, given=None):
        op = self.d['ops'][i]; L = self.L; k = op['op']
        try:
            if k == 'bound':
                (set_bound if isinstance(L, MpcLoop) else set_mhe_bound)(L if not op.get('handle') else Held(self), op); self.note('bound', None)
            elif k == 'share':
                ob = obj(L)
                if given is not None: setattr(ob, op['w'], given)
                else:
                    v = getattr(obj(other.L), op['w']); self.vals[i] = flat(v).reshape(-1, 1).copy(); setattr(ob, op['w'], v)
                self.note('share', None)
            else:
                r, _ = do(L, op)
                ok = r[0] == 'ok' and (r[1] is None or good(L))
                self.note(k, ('ok' if ok else 'unsolved', result(L, r) if ok and r[1] is not None else None) if r[0] == 'ok' else ('err', type(r[1]).__name__, str(r[1])[:300]))
        except Exception as e:
            import traceback
            self.note(k, ('raised', type(e).__name__, traceback.format_exc()[-600:]))
class Held:
    """bound changes through property objects fetched at creation"""
    def __init__(self, I): self.__dict__['I'] = I
    def __getattr__(self, k):
        I = self.__dict__['I']
        if k in ('mpc', 'mhe'):
            import types
            return types.SimpleNamespace(**I.h)
        return getattr(I.L, k)

class C07(ClCheck):
    pid = 'C07'
    batch = 1
    runs = {'quick': 260, 'thorough': 20000}
    shrink_lists = [('turns',), ('inst', '*', 'ops')]
    rule = 'at least two instances made at least two steps each with at least three changes between instances; distinct if the turns, schedules and results differ'
    assumptions = ['one process; at most four instances of small models; one thread per instance']
    def gen(self, rng, idx, tier):
        n = rng.pick([2, 2, 3, 4]); inst = []; threads = rng.chance(0.5)
        for i in range(n):
            share = None
            if inst and rng.chance(0.4) and any(d['o']['kind'] != 'lqr' for d in inst):
                j = rng.pick([q for q in range(i) if inst[q]['o']['kind'] != 'lqr']); src = inst[j]; s = src['o']['s']; kind = rng.pick(['sim', 'mpc', src['o']['kind']])
                if kind == 'mhe': o = dict(kind=kind, s=s, c=gen_mhe(rng, s), sig=mods.gen_sig(rng, s), mode=rng.pick(['same', 'fresh']))
                elif kind == 'mpc' and s['nx'] <= 2 and s['nu']: o = dict(kind=kind, s=s, c=gen_mpc(rng, s), sig=mods.gen_sig(rng, s), mode=rng.pick(['same', 'fresh']))
                else: o = dict(kind='sim', s=s, sig=mods.gen_sig(rng, s), mode=rng.pick(['same', 'fresh']), st={}, meas_u=rng.chance(0.3) and s['meas'] != 'default')
                share = src.get('share'); share = j if share is None else share
                if src.get('share') is None: src['share'] = share
            else: o = gen_any(rng, ('sim', 'sim', 'mpc', 'mpc', 'mpc', 'mhe', 'mhe', 'lqr'))
            if o['kind'] in ('mpc', 'mhe'):
                o['c']['N'] = min(o['c']['N'], 3); o['c']['ni'] = 1
                if rng.chance(0.2): o['c']['nlpopts'] = rng.pick([{'ipopt.max_iter': 1}, {'ipopt.tol': 1e-3}, {'ipopt.mu_strategy': 'adaptive'}])
                if rng.chance(0.3): o['c']['stats'] = rng.pick([['success'], ['success', 't_wall_total', 'iter_count']])
            if o['kind'] == 'sim' and o['s']['type'] == 'continuous' and rng.chance(0.6): o['st'] = rng.pick([{'abstol': 1e-4, 'reltol': 1e-3}, {'abstol': 1e-11}, {'integration_opts': {'max_num_steps': 4}}, {'integration_opts': {'max_step_size': 0.02}}, {'integration_opts': {'max_step_size': 0.02}, 'inplace': 1}])
            if o['kind'] in ('mpc', 'mhe') and rng.chance(0.4): o['c']['inplace'] = 1         # options changed in place
            ops = []
            for _ in range(rng.randint(2, 5)):
                r = rng.random()
                if o['kind'] in ('mpc', 'mhe') and r < 0.3:
                    if o['kind'] == 'mpc': b = gen_bound_op(rng, o['s'], o['c'])
                    else: v = rng.pick(['x', 'x'] + (['p'] if o['c']['pe'] else [])); b = {'op': 'bound', 'v': v, 'i': rng.randint(0, {'x': o['s']['nx'], 'p': len(o['c']['pe'])}[v] - 1), 'lo': -rng.fl(1.5, 5, 2), 'hi': rng.fl(1.5, 5, 2)}
                    b['handle'] = rng.randint(0, 1); ops.append(b); continue
                if r < 0.36: ops.append({'op': 'reset', 'init': gen_init(rng, o)} if o['kind'] in ('mpc', 'mhe') else {'op': 'reset'}); continue
                p = gen_step(rng, o); p['mut'] = rng.randint(0, 1)
                if rng.chance(0.2):
                    f = gen_fault(rng, o)
                    if f['k'] in ('tvp', 'p', 'y') or f['k'].startswith('bad') or not threads and f['k'] != 'int': p['fault'] = f
                ops.append(p)
            inst.append(dict(o=o, init=gen_init(rng, o), ops=ops, share=share, cthread=rng.chance(0.7)))
        for i, d in enumerate(inst):            # states handed on as structures
            if threads or d['o']['kind'] == 'lqr' or not rng.chance(0.5): continue
            for j, e in enumerate(inst):
                if j != i and e['o']['kind'] != 'lqr' and d.get('share') is not None and d.get('share') == e.get('share'):
                    d['ops'].insert(rng.randint(0, len(d['ops'])), {'op': 'share', 'w': rng.pick(['x0', 'x0', 'u0']), 'from': j}); break
        turns = []
        for i, d in enumerate(inst): turns += [i] * (len(d['ops']) + 1)
        rng.shuffle(turns)
        return dict(inst=inst, threads=threads, turns=turns, pre=rng.pick([0.003, 0.02, 0.1]), seed=rng.randint(0, 1 << 40))
    def run(self, case, out):
        pid = self.pid; dm = self.dm; inst = case['inst']
        def solo(d):
            def f(vals):
                I = Inst(dm, d); I.create()
                for i, op in enumerate(d['ops']): 
                    if op['op'] == 'share' and i not in vals: continue
                    I.step(i, None, vals.get(i))
                return I.obs
            return f
        refs = [fork_later(solo(d)) for d in inst]; models = {}
        I = [Inst(dm, d, models) for d in inst]; nsw = 0
        if case['threads']:
            plan = case.get('plan'); rng = Rng(case['seed'], 'c07')
            sim = sched.Sim(rng=None if plan else rng, plan=plan.get('sched', []) if plan else None, preempt_p=case['pre'], max_lines=6_000_000)
            for i, d in enumerate(inst):
                if d['share'] is not None and d['o']['kind'] != 'lqr':
                    key = (d['share'], d['o']['kind'] == 'mhe' or bool(d['o'].get('meas_u')))
                    if key not in models: models[key] = mods.build_model(dm, d['o']['s'], meas_u=key[1])
                if not d['cthread']: I[i].create()
            def body(x):
                if x.L is None: x.create()
                for i in range(len(x.d['ops'])):
                    x.step(i); sim.point()
            def main():
                for i, x in enumerate(I): sim.spawn(lambda x=x: body(x), 'inst%d' % i)
            sim.run(main); out.rec = {'sched': sim.dev}; nsw = sim.switches
            if sim.thread_excs: raise sim.thread_excs[0][1]
            if sim.aborting: raise Harness('aborted: %s' % sim.aborting)
            out.log(sim.dev); out.cover |= set('%s>%s' % x for x in sim.sites)
        else:
            last = None; pos = [0] * len(inst)
            for i in case['turns'] + [i for i in range(len(inst)) for _ in range(len(inst[i]['ops']) + 1)]:
                x = I[i]
                if x.L is None: x.create()
                elif pos[i] < len(x.d['ops']):
                    op = x.d['ops'][pos[i]]; other = None
                    if op['op'] == 'share':
                        other = I[op['from']] if op['from'] < len(I) else None
                        if other is None or other.L is None: pos[i] += 1; continue
                    x.step(pos[i], other); pos[i] += 1
                nsw += last is not None and last != i; last = i
        ns = []
        for i, x in enumerate(I):
            ref = refs[i](x.vals)
            if isinstance(ref, dict): raise Harness('alone: ' + ref['error'])
            what0 = 'instance %d (%s) of %s%s' % (i, x.d['o']['kind'], [d['o']['kind'] for d in inst], ' in threads' if case['threads'] else '')
            if len(ref) != len(x.obs): raise Harness('%d operations, %d alone' % (len(x.obs), len(ref)))
            tol = 1e-9 if x.d['o']['kind'] in ('sim', 'lqr') else 1e-6; c = 0; skip = False
            for j, ((w, r, st), (w2, r2, st2)) in enumerate(zip(x.obs, ref)):
                what = '%s, operation %d (%s)' % (what0, j, w)
                if (r and r[:2] if r and r[0] in ('err', 'raised') else r and r[0]) != (r2 and r2[:2] if r2 and r2[0] in ('err', 'raised') else r2 and r2[0]): out.violation(pid, 'outcome', '%s: %s, alone %s' % (what, r, r2)); return
                if r and r[0] == 'ok' and r[1] is not None and not close(r[1], r2[1], tol): out.violation(pid, 'result', '%s: %s, alone %s' % (what, sh(r[1]), sh(r2[1]))); return
                if r and r[0] == 'unsolved': break
                if st.get('settings') != st2.get('settings'): out.violation(pid, 'settings', '%s: settings %s, alone %s' % (what, st['settings'], st2['settings'])); return
                a, b = ({k: v for k, v in q.items() if k != 'settings'} for q in (st, st2))
                if w == 'step' and r[0] in ('err', 'raised'): a.pop('guess', None); b.pop('guess', None)
                d = diff(a, b, tol) or diff(b, a, tol)
                if d: out.violation(pid, 'state', '%s: %s (alone)' % (what, d)); return
                c += w == 'step' and r[0] == 'ok'
                if c and r and r[1] is not None and r[0] == 'ok': out.log(np.round(r[1], 5).tolist())
            ns.append(c)
            for k, v in x.out.faults.items(): out.faults[k] += v
        out.stats['steps'] += sum(ns); out.stats['instances'] += len(I); out.stats['switches'] += nsw; out.log(case['turns'] if not case['threads'] else 0)
        out.sim_time = sum(n * (d['o']['c']['tstep'] if d['o']['kind'] == 'lqr' else d['o']['s']['tstep']) for n, d in zip(ns, inst))
        out.nontrivial = sum(n >= 2 for n in ns) >= 2 and nsw >= 3; out.summary = '%s: %s steps, %d switches' % ([d['o']['kind'] for d in inst], ns, nsw)

def make(pid): return globals()[pid]()
