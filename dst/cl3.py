"""C16, C17, C18: models that travel between processes, live plots, sensitivities."""
import os, sys, json, pickle, copy, io, base64, tempfile, shutil, subprocess, socket, struct
import numpy as np
from .runner import Check, Violation, Harness
from .rng import Rng
from . import load, mods, sched
from .loops import *
from .cl import *
from .cl import ClCheck, AnyCheck
from . import cl2
from .cl2 import Dummy, run_loop, export_all, HashServers

# ------------------------------------------------------------------ C16
def raw_model(dm, o):
    """the model of a case, the way the loops build it"""
    if o['kind'] == 'lqr': return LqrLoop(dm, o['c'], Dummy()).model
    return mods.build_model(dm, o['s'], meas_u=o['kind'] == 'mhe' or bool(o.get('meas_u')))

def facts(m, pts):
    """what a model says about itself: names, sizes and values of its functions at given points"""
    import casadi
    d = {}; F = [getattr(m, n) for n in ('x', 'u', 'z', 'p', 'tvp', 'y', 'aux', 'w', 'v')]
    for n, f in zip(('x', 'u', 'z', 'p', 'tvp', 'y', 'aux', 'w', 'v'), F):
        d['labels ' + n] = [str(q) for q in f.labels()] if f.size else []
        d['names ' + n] = [str(k) for k in f.keys()]
    d['type'] = m.model_type; d['sym'] = m.symvar_type
    ins = [casadi.vertcat(getattr(m, n)) for n in ('x', 'u', 'z', 'p', 'tvp', 'w', 'v')]
    fun = casadi.Function('f', ins, [casadi.vertcat(m.aux), casadi.vertcat(m._y_expression), casadi.vertcat(m._rhs), casadi.vertcat(m._alg)])
    for i, p in enumerate(pts):
        a = [np.array(p[:q.shape[0]]) + 0.01 * j for j, q in enumerate(ins)]
        for n, v in zip(('aux', 'y', 'rhs', 'alg'), fun(*a)): d['%s at point %d' % (n, i)] = np.array(casadi.DM(v)).reshape(-1).tolist()
        if m.model_type == 'discrete' and hasattr(m, 'get_linear_system_matrices'):
            x, u, z, pp, t = a[:5]
            for k, M in zip('ABCD', m.get_linear_system_matrices(xss=x, uss=u, z=z, tvp=t, p=pp)): d['matrix %s at %d' % (k, i)] = np.array(casadi.DM(M)).reshape(-1).tolist()
    return d
def differs(a, b):
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if isinstance(x, list) and x and isinstance(x[0], float):
            if y is None or not close(y, x, 1e-9): return '%s: %s instead of %s' % (k, y, x)
        elif x != y: return '%s: %s instead of %s' % (k, y, x)

class Plain:
    """call() of the loops, for objects without one"""
    def __init__(self, out): self.out = out; self.cb = Callbacks(); self.last = None
    call = Loop.call

def transport(dm, m, t, tmp, ask):
    """a model handed on"""
    k = t['t']
    if k == 'deepcopy': return copy.deepcopy(m)
    if k == 'file':
        fn = os.path.join(tmp, 'model.pkl')
        dm.tools.save_pickle(fn, m, overwrite=True); return dm.tools.load_pickle(fn)
    b = pickle.dumps(m, protocol=t['proto'])
    if k == 'proc': b = ask(b)
    return pickle.loads(b)

def remote(dm, case):
    """in another process: load the model, use it as told, hand it on"""
    m = pickle.loads(base64.b64decode(case['model']))
    r = {'facts': facts(m, case['pts'])}
    if case['use']: r['loop'] = run_loop(dm, case['case'], lambda i, fn: fn(), model=m)
    r['model'] = base64.b64encode(pickle.dumps(m, protocol=case['proto'])).decode()
    return r

class C16(HashServers, ClCheck):
    pid = 'C16'
    batch = 15
    runs = {'quick': 700, 'thorough': 40000}
    shrink_lists = [('chain',), ('ops',)]
    rule = 'the model was handed on at least twice, once interrupted, concurrently with steps or through another process, and at least two steps were made with it; distinct if results and transports differ'
    def gen(self, rng, idx, tier):
        o = gen_any(rng, ('sim', 'sim', 'mpc', 'mhe', 'lqr')); k = o['kind']
        if k != 'lqr': o['s']['sym'] = 'SX' if rng.chance(0.9) else 'MX'
        if k in ('mpc', 'mhe'): o['c']['N'] = min(o['c']['N'], 3)
        ops = []
        for _ in range(rng.randint(2, 4)):
            if rng.chance(0.08): ops.append({'op': 'reset', 'init': gen_init(rng, o)} if k in ('mpc', 'mhe') else {'op': 'reset'}); continue
            p = gen_step(rng, o)
            if rng.chance(0.15):
                f = gen_fault(rng, o)
                if f['k'] != 'int': p['fault'] = f
            ops.append(p)
        chain = []
        for _ in range(rng.randint(1, 4)):
            t = {'t': rng.pick(['pickle', 'pickle', 'deepcopy', 'file', 'proc']), 'proto': rng.pick([2, 3, 4, 5, 5])}
            if rng.chance(0.4): t['int'] = rng.pick([rng.randint(1, 6), rng.randint(1, 14)])
            if t['t'] == 'proc': t['use'] = rng.chance(0.4); t['hs'] = rng.randint(0, 1)
            if rng.chance(0.3): t['again'] = 1          # the model handed on is used once more
            chain.append(t)
        return dict(o=o, init=gen_init(rng, o), ops=ops, chain=chain, early=rng.pick([0, 0, 0, 1]), live=rng.chance(0.45), pts=[vec(rng, 4) for _ in range(2)], pre=rng.pick([0.02, 0.1, 0.3]), at=[rng.randint(1, 900), rng.randint(1, 60)], seed=rng.randint(0, 1 << 40))
    def run(self, case, out):
        tmp = tempfile.mkdtemp(prefix='dst_c16_')
        try: self.go(case, out, tmp)
        finally: shutil.rmtree(tmp, ignore_errors=True)
    def ask(self, t, case, out):
        def f(b):
            r = self.request(t['hs'], dict(kind='model', model=base64.b64encode(b).decode(), use=t['use'], proto=t['proto'], pts=case['pts'], case={k: case[k] for k in ('o', 'init', 'ops')}))
            if 'error' in r:
                self.seen.append(r); raise Violation(self.pid, 'unusable', 'in another process: ' + r['error'])
            self.seen.append(r); out.faults['another process'] += 1
            return base64.b64decode(r['model'])
        return f
    def go(self, case, out, tmp):
        pid = self.pid; o = case['o']; dm = self.dm; self.seen = []; P = Plain(out)
        if o['kind'] != 'lqr' and o['s']['sym'] == 'MX' or case['early']:
            return self.refused(case, out)
        m = m0 = raw_model(dm, o); F = facts(raw_model(dm, o), case['pts'])
        tol = 1e-9 if o['kind'] in ('sim', 'lqr') else 1e-6; made = []; ref = run_loop(dm, case, lambda i, fn: fn()); nint = 0
        def hand(m, t):
            if t.get('int'):
                r = P.call(lambda: transport(dm, m, t, tmp, self.ask(t, case, out)), {'k': 'int', 'n': t['int']})
                if r[0] == 'ok': return r[1]
                if not isinstance(r[1], KeyboardInterrupt): raise r[1]
            return transport(dm, m, t, tmp, self.ask(t, case, out))
        live = None
        if case['live']:
            # the first hand-over happens while a loop with the model is running
            plan = case.get('plan'); box = {}
            sim = sched.Sim(rng=None if plan else Rng(case['seed'], 'c16'), plan=plan.get('sched', []) if plan else None, preempt_p=case['pre'], max_lines=3_000_000)
            cnt = [0]; wait = []
            def on_line(t, site):
                if t is box.get('main'):
                    cnt[0] += 1
                    if wait and cnt[0] >= case['at'][0] + case['at'][1] * 20: sim.wake(wait.pop())
            sim.on_line = on_line
            def other():
                t = sched.cur_thread()
                if box.get('main') is not None: wait.append(t); sim.block()
                box['live'] = box.get('main') is not None
                tr = dict(case['chain'][0], t='pickle'); tr.pop('int', None)
                box['m'] = transport(dm, m0, tr, tmp, None)
            def main():
                sim.spawn(other, 'other'); box['main'] = sched.cur_thread()
                box['A'] = run_loop(dm, case, lambda i, fn: fn(), model=m0)
                box['main'] = None
                while wait: sim.wake(wait.pop())
            sim.run(main); out.rec = {'sched': sim.dev}
            if sim.thread_excs: raise sim.thread_excs[0][1]
            if sim.aborting: raise Harness('aborted: %s' % sim.aborting)
            out.stats['handed on during a loop'] += box['live']; made.append(('pickled while a loop was running', box['m'])); live = box['A']; m = box['m']; out.log(sim.dev)
            out.faults['concurrent steps'] += bool(box['live'])
        for i, t in enumerate(case['chain']):
            n = hand(m, t); made.append(('handed on %d times, last by %s' % (i + 1, t['t']), n))
            d = differs(F, facts(m, case['pts']))
            if d: out.violation(pid, 'original', 'after it was handed on by %s, the model itself has %s' % (t['t'], d)); return
            if not t.get('again'): m = n
        for w, n in made:
            d = differs(F, facts(n, case['pts']))
            if d: out.violation(pid, 'model', 'a model %s has %s' % (w, d)); return
        for r in self.seen:
            d = differs(F, r['facts'])
            if d: out.violation(pid, 'model', 'a model loaded in another process has %s' % d); return
        runs = [('the original model, after it was handed on', run_loop(dm, case, lambda i, fn: fn(), model=m0)), ('a model ' + made[-1][0], run_loop(dm, case, lambda i, fn: fn(), model=made[-1][1]))]
        if live is not None: runs.append(('the model while it was pickled by another thread', live))
        runs += [('a model loaded in another process', r['loop']) for r in self.seen if r.get('loop')]
        for k, v in ref['faults'].items(): out.faults[k] += v
        ns = 0
        for w, B in runs:
            k, d = cl2.compare(ref, B, tol)
            if d: out.violation(pid, 'behaviour', '%s with %s: %s' % (o['kind'], w, d)); return
            ns = max(ns, k)
        for a in ref['res']: out.log(np.round(a[1], 5).tolist())
        out.log(case['chain']); out.stats['steps'] += ns; out.stats['hand-overs'] += len(made)
        out.sim_time = ns * (o['c']['tstep'] if o['kind'] == 'lqr' else o['s']['tstep'])
        out.nontrivial = len(made) >= 2 and ns >= 2 and bool(live or self.seen or out.faults.get('int')); out.summary = '%s: %d hand-overs, %d steps' % (o['kind'], len(made), ns)
    def refused(self, case, out):
        """models that cannot be pickled say so and stay as they were"""
        pid = self.pid; o = case['o']; dm = self.dm; n = 0; box = {}
        def tries(m, what):
            for t in case['chain']:
                try: transport(dm, m, dict(t, t='pickle' if t['t'] in ('file', 'proc') else t['t']), None, None)
                except Exception as e: continue
                out.violation(pid, 'accepted', 'a model %s was pickled' % what); return False
            return True
        if case['early']:
            setup = dm.model.Model.setup; lsetup = dm.model.LinearModel.setup; ok = [True]; mine = [0]
            def early(self_, *a, **k):
                mine[0] += 1
                if mine[0] == 1: ok[0] = tries(self_, 'before setup')
                return setup(self_, *a, **k)
            try:
                dm.model.Model.setup = early; m = raw_model(dm, o)
            finally: dm.model.Model.setup = setup
            n = mine[0]
            if not n: raise Harness('setup was not called')
            if not ok[0]: return
        else: m = raw_model(dm, o)
        if o['kind'] != 'lqr' and o['s']['sym'] == 'MX' and not tries(m, 'with MX variables'): return
        ref = run_loop(dm, case, lambda i, fn: fn()); B = run_loop(dm, case, lambda i, fn: fn(), model=m)
        k, d = cl2.compare(ref, B, 1e-9 if o['kind'] in ('sim', 'lqr') else 1e-6)
        if d: out.violation(pid, 'behaviour', '%s with a model that refused to be pickled: %s' % (o['kind'], d)); return
        out.faults['refused'] += 1; out.stats['steps'] += k
        for a in ref['res']: out.log(np.round(a[1], 5).tolist())
        out.summary = 'refused, %d steps' % k

# ------------------------------------------------------------------ C17
class Plots:
    """one plotting thread's figure"""
    def __init__(self, dm, data):
        from matplotlib.figure import Figure
        from matplotlib.backends.backend_agg import FigureCanvasAgg
        self.dm = dm; self.fig = Figure(figsize=(2, 1)); FigureCanvasAgg(self.fig); self.ax = self.fig.add_subplot(111); self.data = data
        self.g = dm.graphics.Graphics(data); self.have = []; self.maybe = []
    def capture(self):
        """all lines as they are now: {(field, name, i[, k]): (times, values)}"""
        d = {}
        for f, n, k in self.have:
            for i in range(k):
                l = self.g.result_lines[f, n, i]
                d[f, n, i] = [xy(q) for q in l]
                for j, q in enumerate(self.g.pred_lines[f, n, i]): d[f, n, i, j] = [xy(q)]
        return d
def xy(line): return np.array(line.get_xdata(), float).reshape(-1), np.array(line.get_ydata(), float).reshape(-1)

class C17(cl2.C13):
    pid = 'C17'
    batch = 12
    runs = {'quick': 800, 'thorough': 40000}
    rule = 'at least three plots were drawn, one of them while a step was in progress or after a failed one; distinct if results and schedules differ'
    stub = ClCheck.stub + ['movie writers (record the lines of every frame)']
    def gen_plot(self, rng, o, fs, todo):
        q = {'at': [rng.randint(0, 5), rng.pick([rng.randint(0, 260), 10 ** 8])], 'k': 'plot'}
        r = rng.random()
        if todo and r < 0.4: f, n, k = todo.pop(rng.randint(0, len(todo) - 1)); q.update(do='add', f=f, n=n, size=k)
        elif r < 0.68: q.update(do='results', t=rng.pick([-1, -1, -1, 0, 1, 2, -2, 3]))
        elif r < 0.92 and o['kind'] == 'mpc': q.update(do='pred', t=rng.pick([-1, -1, -1, 0, 1, -2]))
        elif r < 0.95: q.update(do='clear', sub=rng.pick([None, 0, 1, 2, 3]))
        else: q.update(do='axes')
        if rng.chance(0.1): q['int'] = rng.randint(1, 14)
        return q
    def gen(self, rng, idx, tier):
        c = super().gen(rng, idx, tier); o = c['o']; fs = [x for x in cl2.fields(o) if x[0] != '_y']; R = []
        for _ in range(rng.pick([1, 1, 2])):
            todo = [(f, n, k) for f, ns in fs for n, k in ns if n != 'default']; rng.shuffle(todo); q = []
            for i in range(rng.randint(1, 3)):
                if todo:
                    f, n, k = todo.pop(); a = {'at': [0, 0], 'k': 'plot', 'do': 'add', 'f': f, 'n': n, 'size': k}
                    if o['kind'] == 'mpc' and i == 0 and f not in ('_x', '_u', '_z'): todo.append((f, n, k)); a.update(f='_x', n=fs[0][1][0][0], size=fs[0][1][0][1]); todo = [t for t in todo if t[:2] != (a['f'], a['n'])]
                    q.append(a)
            q += [self.gen_plot(rng, o, fs, todo) for _ in range(rng.randint(3, 9))]
            q.sort(key=lambda x: x['at'] if x['do'] != 'add' else [-1, 0]) if rng.chance(0.7) else None
            R.append(q)
        c['readers'] = R; c['warm'] = False
        c['fin'] = {'anim': rng.chance(0.35), 'fmt': rng.pick(['gif', 'mp4', 'own']), 'over': rng.chance(0.3), 'n': rng.pick([None, None, 1, 2]), 'default': rng.chance(0.12), 'sub': rng.randint(0, 15), 'files': [rng.chance(0.5), rng.chance(0.5)], 'times': rng.pick([1, 2])}
        return c
    def run(self, case, out):
        self.case = case; self.plots = {}; self.marks = {}; self.out_ = out; self.cache = {}
        super().run(case, out)
        if not out.viol: out.nontrivial = out.stats['plots'] >= 3 and (out.stats['queries during a step'] >= 1 or sum(out.faults.values()) >= 1)
    def ask(self, data, q):
        t = sched.cur_thread(); P = self.plots.get(t.id)
        if P is None: P = self.plots[t.id] = Plots(self.dm, data)
        k = q['do']; self.out_.stats['plots'] += 1
        if k == 'add':
            key = (q['f'], q['n'], q['size'])
            try: P.g.add_line(q['f'], q['n'], P.ax, **({'linewidth': 2} if q['size'] > 1 else {}))
            except KeyboardInterrupt:
                if q.get('int'): q['int'] = 0; P.g.add_line(q['f'], q['n'], P.ax)         # once more
                else: raise
            P.have.append(key)
            if q['f'] == '_u': self.marks[id(q)] = {l.get_drawstyle() for i in range(q['size']) for l in list(P.g.result_lines['_u', q['n'], i]) + list(P.g.pred_lines['_u', q['n'], i])}
        elif k == 'results': P.g.plot_results(q['t']) if q['t'] != -1 else P.g.plot_results()
        elif k == 'pred': P.g.plot_predictions(q['t']) if q['t'] != -1 else P.g.plot_predictions()
        elif k == 'clear' and q.get('sub') is not None:
            # the first lines only (or none)
            keys = [(f, n, i) for f, n, c in P.have for i in range(c)]; cut = keys[:q['sub']]; self.marks[id(q)] = cut, P.capture()
            P.g.clear([l for key in cut for l in P.g.result_lines[key]])
        elif k == 'clear': P.g.clear()
        elif k == 'axes': P.g.reset_axes(); P.g.reset_prop_cycle()
        return P.capture()
    def judge(self, L, o, fs, epochs, a, out):
        q, e0, n0, e1, n1, r, y = a; pid = self.pid; k = q['do']; what = '%s(%s)' % (k, ', '.join(str(q[x]) for x in ('f', 'n', 't') if x in q))
        if isinstance(r, KeyboardInterrupt) and q.get('int') is not None: return True
        when = 'while steps %d to %d of run %d were completed' % (n0, n1, e1)
        if isinstance(r, BaseException):
            t = q.get('t')
            if t is not None and isinstance(r, AssertionError) and (abs(t) > n0 or e1 > e0): return True
            if k == 'pred' and (not o['c']['full'] and isinstance(r, AssertionError) or isinstance(r, IndexError) and (t >= n0 or e1 > e0)): return True
            out.violation(pid, 'plot-failed', '%s %s raised %r' % (what, when, r)); return False
        if k == 'clear':
            for key, v in r.items():
                cut, before = self.marks.get(id(q), (None, None))
                if cut is not None and key not in cut:
                    if not all(np.array_equal(x1, x2) and np.array_equal(y1, y2) for (x1, y1), (x2, y2) in zip(v, before[key])): out.violation(pid, 'cleared', 'clear() of the lines of %s changed those of %s' % (cut, key)); return False
                    continue
                if len(key) == 3 and any(len(x) or len(z) for x, z in v): out.violation(pid, 'not-cleared', '%s has data after clear()' % (key,)); return False
            return True
        if k in ('axes',): return True
        # an input is applied from its time on, until the next one
        if k == 'add' and q['f'] == '_u' and self.marks.get(id(q), {'steps-post'}) != {'steps-post'}: out.violation(pid, 'line-wrong', '%s: the inputs are drawn as %s' % (what, sorted(self.marks[id(q)]))); return False
        js = None
        for key, v in r.items():
            if k == 'add' and key[:2] != (q['f'], q['n']): continue
            if len(v) != 1: out.violation(pid, 'lines', '%s: %d lines of %s' % (what, len(v), key)); return False
            x, z = v[0]
            if len(x) != len(z): out.violation(pid, 'torn', '%s %s: the line of %s has %d times and %d values' % (what, when, key, len(x), len(z))); return False
            if len(key) == 3 and k in ('add', 'results'):
                why = self.line(o, epochs, e0, n0, e1, n1, key, x, z, q.get('t', -1))
                if why: out.violation(pid, 'line-wrong', '%s %s: the line of %s %s' % (what, when, key, why)); return False
            if len(key) == 4 and k in ('add', 'pred'):
                ok, why = self.pred(L, o, epochs, e0, n0, e1, n1, key, x, z, q.get('t', -1), k == 'add')
                if not ok: out.violation(pid, 'prediction-wrong', '%s %s: the line of scenario %d of %s %s' % (what, when, key[3], key[:3], why)); return False
                js = ok if js is None else js & ok
                if not js and e0 == e1: out.violation(pid, 'mixed-predictions', '%s %s: the lines show predictions of different steps' % (what, when)); return False
        if k == 'add':
            if (q['f'], q['n'], 0) not in r or len([x for x in r if len(x) == 3 and x[:2] == (q['f'], q['n'])]) != q['size']: out.violation(pid, 'lines', '%s: no line for each element' % what); return False
            if o['kind'] == 'mpc' and o['c']['full'] and q['f'] != '_p':
                S = 1 if q['f'] == '_tvp' or q['f'] == '_u' and o['c']['open_loop'] else o['c']['ncomb'] ** o['c']['nr']
                for i in range(q['size']):
                    if len([x for x in r if len(x) == 4 and x[:3] == (q['f'], q['n'], i)]) != S: out.violation(pid, 'lines', '%s: not one predicted line for each scenario of element %d' % (what, i)); return False
        return True
    def line(self, o, epochs, e0, n0, e1, n1, key, x, z, t):
        col = cl2.columns(cl2.fields(o), key)[0] if len(dict(dict(cl2.fields(o))[key[0]])) else 0; why = 'has no values'
        def part(m): return m if t == -1 else (min(t + 1, m) if t >= 0 else max(0, m + t + 1))
        for e in range(e0, e1 + 1):
            A = epochs[e]['arr'][key[0]]; T = epochs[e]['arr']['_time'].reshape(-1)
            lo = n0 if e == e0 else 0; hi = min(epochs[e]['n'], (n1 if e == e1 else epochs[e]['n']) + 1)
            if A.shape[0] == 0: lo = 0
            Z = A[:, col]
            ms = [m for m in range(lo, hi + 1) if part(m) == len(z)]
            if not ms and not (e0 != e1 and len(z) <= hi): why = 'has %d points; %d to %d steps were completed' % (len(z), lo, hi); continue
            if not np.array_equal(z, Z[:len(z)], equal_nan=True): why = 'has the values %s, recorded are %s' % (sh(z), sh(Z[:len(z)])); continue
            if not any(np.array_equal(x, epochs[d]['arr']['_time'].reshape(-1)[:len(x)]) for d in range(e0, e1 + 1)): why = 'has the times %s, recorded are %s' % (sh(x), sh(T[:len(x)])); continue
            return None
        return why
    def pred(self, L, o, epochs, e0, n0, e1, n1, key, x, z, t, add):
        step = o['s']['tstep']; ok = set(); why = 'matches no prediction'
        for e in range(e0, e1 + 1):
            E = epochs[e]; n = E['n']; lo = n0 if e == e0 else 0; hi = min(n1 + 1 if e == e1 else n, n)
            js = range(lo - 1, hi) if t == -1 else [t] if 0 <= t < n else range(lo + t, hi + t + 1) if t < 0 else []
            js = list(js) + [-1] * (e0 != e1)          # deleted meanwhile
            for j in js:
                if j < 0 and not add and e0 == e1: continue
                ck = (e, j, key[:2])
                if ck not in self.cache:
                    self.cache[ck] = self.predicted(L, o, key[:2], E['arr'], j)
                W = self.cache[ck]; w = W[key[2], :, key[3]] if key[3] < W.shape[2] else np.zeros(0)
                if len(w) != len(z) or not np.allclose(w, z, rtol=1e-12, atol=1e-12, equal_nan=True): why = 'has the values %s, predicted at step %d: %s' % (sh(z), j, sh(w)); continue
                if not add and j >= 0:
                    T = float(E['arr']['_time'][j, 0]) + step * np.arange(len(w))
                    if not np.allclose(x, T, rtol=1e-12, atol=1e-12): why = 'has the times %s, the prediction of step %d is for %s' % (sh(x), j, sh(T)); continue
                ok.add((e, j))
        return ok, why
    cache = None
    def final(self, L, o, fs, epochs, out):
        """post-processing: saved data, default plots, animations"""
        pid = self.pid; dm = self.dm; fin = self.case['fin']; n = epochs[-1]['n']; e = len(epochs) - 1
        P = Plots(dm, pickle.loads(pickle.dumps(obj(L).data))); full = o['kind'] == 'mpc' and o['c']['full']
        names = [(f, m, k) for f, ns in fs for m, k in ns if m != 'default' and f != '_y'][:4]
        def check(k, t, what):
            q = dict(k='plot', do=k, t=t)
            try:
                if k == 'results': P.g.plot_results(t)
                else: P.g.plot_predictions(t)
                r = P.capture()
            except Exception as x: r = x
            return self.judge(L, o, fs, epochs, (q, e, n, e, n, r, None), out)
        for f, m, k in names: P.g.add_line(f, m, P.ax); P.have.append((f, m, k))
        if not check('results', -1, 'loaded'): return
        if full and n:
            for t in (-1, n // 2): 
                if not check('pred', t, 'loaded'): return
        if fin['default'] and n: self.default(dm, L, o, fs, epochs, out, fin)
        if out.viol: return
        if fin['anim'] and n: self.animate(dm, L, o, fs, epochs, out, fin, P)
    def default(self, dm, L, o, fs, epochs, out, fin):
        pid = self.pid; n = epochs[-1]['n']; e = len(epochs) - 1; d = dict(fs); arg = {}; want = []
        for bit, (f, a) in enumerate([('_x', 'states_list'), ('_z', 'dae_states_list'), ('_u', 'inputs_list'), ('_aux', 'aux_list')]):
            ns = [x for x in d.get(f, []) if x[0] != 'default']
            if fin['sub'] >> bit & 1 and ns: ns = ns[-1:]; arg[a] = [x[0] for x in ns]
            want += [(f,) + x for x in ns]
        import matplotlib.pyplot as plt
        try: fig, ax, g = dm.graphics.default_plot(obj(L).data, figsize=(3, 6), **arg)
        except Exception as x: out.violation(pid, 'default-plot', 'default_plot(%s) raised %r' % (arg, x)); return
        plt.close(fig)
        P = Plots(dm, obj(L).data); P.g = g; P.have = want; g.plot_results(); out.stats['default plots'] += 1
        have = set(tuple(i[:2]) for i in g.result_lines.powerindex)
        if have != set(w[:2] for w in want) or len(np.atleast_1d(ax)) != len(want): out.violation(pid, 'default-plot', 'default_plot(%s) shows %s, asked for %s' % (arg, sorted(have), want)); return
        self.judge(L, o, fs, epochs, (dict(k='plot', do='results', t=-1), e, n, e, n, P.capture(), None), out)
    def animate(self, dm, L, o, fs, epochs, out, fin, P):
        pid = self.pid; n = epochs[-1]['n']; e = len(epochs) - 1; G = dm.graphics; frames = []; tmp = tempfile.mkdtemp(prefix='dst_c17_'); old = G.FFMpegWriter, G.ImageMagickWriter
        from matplotlib.animation import AbstractMovieWriter
        class Writer(AbstractMovieWriter):
            """stands for the movie writers"""
            def __init__(self, *a, **k): super().__init__()
            def setup(self, fig, outfile, dpi=None): self.outfile = outfile; self.fig = fig; del frames[:]
            def grab_frame(self, **k): frames.append(P.capture())
            def finish(self):
                with open(self.outfile, 'w') as h: h.write('frames %d' % len(frames))
        path = os.path.join(tmp, 'a', 'b') + '/'; ext = {'gif': '.gif', 'mp4': '.mp4', 'own': '.'}[fin['fmt']]; kw = {'writer': Writer()} if fin['fmt'] == 'own' else {'format': fin['fmt']}
        nf = min(fin['n'] or n, n)
        try:
            G.FFMpegWriter = G.ImageMagickWriter = Writer; before = {}
            if any(fin['files']):
                os.makedirs(path)
                for i, y in enumerate(fin['files']):
                    if y: fn = ['movie', '001_movie'][i] + ext; before[fn] = 'kept %d' % i; open(path + fn, 'w').write(before[fn])
            for _ in range(fin['times']):
                with __import__('contextlib').redirect_stdout(io.StringIO()):
                    G.animate(P.g, P.fig, n_steps=None if fin['n'] is None else nf, export_path=path, export_name='movie', overwrite=fin['over'], **kw)
                out.stats['animations'] += 1
                now = {f: open(path + f).read() for f in os.listdir(path)}; done = 'frames %d' % len(frames)
                if fin['over']: before['movie' + ext] = done
                else:
                    new = [f for f in now if f not in before]
                    if len(new) != 1: out.violation(pid, 'animation-file', 'animate(overwrite=False) with %s there: %s' % (before, now)); return
                    before[new[0]] = done
                if now != before: out.violation(pid, 'animation-file', 'animate(overwrite=%s): files are %s, expected %s' % (fin['over'], now, before)); return
                if len(frames) != nf: out.violation(pid, 'animation', '%d frames for %d steps' % (len(frames), nf)); return
                for t, r in enumerate(frames):
                    for k in ('results', 'pred') if o['kind'] == 'mpc' and o['c']['full'] else ('results',):
                        if not self.judge(L, o, fs, epochs, (dict(k='plot', do=k, t=t), e, n, e, n, r, None), out): return
        finally:
            G.FFMpegWriter, G.ImageMagickWriter = old; shutil.rmtree(tmp, ignore_errors=True)

def make(pid): return globals()[pid]()
