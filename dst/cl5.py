"""C20: networks converted from ONNX, over histories of conversions and inside loops."""
import os, sys, json, copy
import numpy as np
from .runner import Check, Violation, Harness
from .rng import Rng
from . import load, mods, sched
from .loops import *
from .cl import *
from .cl import ClCheck
from .cl4 import json_copy

def make(pid): return globals()[pid]()

ACT = ['Tanh', 'Sigmoid', 'Relu', 'Elu']
def rnd(rng, *shape):
    n = int(np.prod(shape)); return np.array([rng.fl(-1.2, 1.2, 3) for _ in range(n)]).reshape(shape).tolist()

def gen_net(rng, loop=None):
    """a random graph of supported operators: dict(ins, inits, nodes, f32, opset); shapes are tracked"""
    opset = rng.pick([13, 13, 9]); f32 = rng.chance(0.2)
    rows = 1 if loop or rng.chance(0.7) else rng.randint(2, 3)
    ins = [['x', [1, loop]]] if loop else [['x', [rows, rng.randint(1, 4)]]]
    if not loop and rng.chance(0.3): ins.append(['x2', rng.pick([list(ins[0][1]), [1, ins[0][1][1]], [rows, rng.randint(1, 3)]])])
    T = {n: list(s) for n, s in ins}; inits = {}; nodes = []; cnt = [0]
    def nm(k): cnt[0] += 1; return '%s%d' % (k, cnt[0])
    def init(v, i64=False): n = nm('w'); inits[n] = dict(v=v, i64=i64); return n
    def add(op, i, shape, **at): n = nm('n'); nodes.append(dict(op=op, i=i, o=n, at=at)); T[n] = list(shape); return n
    for _ in range(rng.randint(2, 7)):
        x = rng.pick(list(T)[-3:]); r, c = T[x]; k = rng.random()
        if k < 0.22:
            m = rng.randint(1, 4); y = add('MatMul', [x, init(rnd(rng, c, m))], (r, m)); b = init(rng.pick([rnd(rng, m), rnd(rng, 1, m), rnd(rng, 1), rnd(rng, r, 1), rnd(rng)]))
            add(rng.pick(['Add', 'Add', 'Sum', 'Sub']), [y, b] if rng.chance(0.7) else [b, y], (r, m))
        elif k < 0.42:
            m = rng.randint(1, 4); at = {}; tb = rng.chance(0.4); ta = rng.chance(0.15)
            if tb: at['transB'] = 1
            elif rng.chance(0.2): at['transB'] = 0
            if ta: at['transA'] = 1
            if rng.chance(0.4): at['alpha'] = rng.fl(-1, 1, 2)
            if rng.chance(0.4): at['beta'] = rng.fl(-1, 1, 2)
            ro, ci = (c, r) if ta else (r, c)
            w = init(rnd(rng, m, ci) if tb else rnd(rng, ci, m)); i = [x, w]
            if rng.chance(0.85) or opset < 11: i.append(init(rng.pick([rnd(rng, m), rnd(rng, 1, m), rnd(rng, 1), rnd(rng, ro, m)])))
            add('Gemm', i, (ro, m), **at)
        elif k < 0.6:
            op = rng.pick(ACT); at = {'alpha': rng.fl(0.2, 2, 2)} if op == 'Elu' and rng.chance(0.6) else {}
            add(op, [x], (r, c), **at)
        elif k < 0.74:
            o = [n for n in T if T[n] in ([r, c], [1, c], [r, 1], [1, 1])]; q = rng.pick(o) if rng.chance(0.6) else init(rng.pick([rnd(rng, c), rnd(rng, 1, c), rnd(rng, 1), rnd(rng), rnd(rng, r, 1)]))
            i = [x, q] if rng.chance(0.6) else [q, x]; op = rng.pick(['Mul', 'Add', 'Sub', 'Sum'])
            if op == 'Sum' and rng.chance(0.5): i.append(x)
            add(op, i, (r, c))
        elif k < 0.83:
            ax = rng.pick([1, -1, 0, -2]); o = [n for n in T if (T[n][0] == r if ax in (1, -1) else T[n][1] == c)]
            i = [x] + [rng.pick(o) for _ in range(rng.randint(1, 2))]
            s = (r, sum(T[n][1] for n in i)) if ax in (1, -1) else (sum(T[n][0] for n in i), c)
            if s[0] * s[1] <= 12: add('Concat', i, s, axis=ax)
        elif k < 0.91:
            n = r * c; d = rng.pick([q for q in range(1, n + 1) if n % q == 0]); v = [d, n // d]
            w = rng.pick([v, [d, -1], [-1, n // d]] + ([[0, -1]] if v[0] == r else []) + ([[-1, 0]] if v[1] == c and r > 0 and False else []))
            if rng.chance(0.2): s = add('Shape', [x], (2, 1)); T.pop(s); add('Reshape', [x, s], (r, c))
            else: add('Reshape', [x, init(w, True)], v)
        elif k < 0.96 and opset == 9:
            a, b = sorted(rng.sample(range(c + 1), 2)); ax = [1]
            st, en = [a], [b]
            if rng.chance(0.3) and b < c: en = [b - c]
            if rng.chance(0.3): ax = [0, 1]; st = [0] + st; en = [r] + en
            add('Slice', [x], (r, b - a), axes=ax, ends=en, starts=st, order=rng.pick([[0, 1, 2], [2, 1, 0], [1, 2, 0]]))
        elif r == 1:
            if opset == 9: y = add('Squeeze', [x], (1, c), axes=[0]); T.pop(y); z = add('Tanh', [y], (1, c)); T.pop(z); add('Unsqueeze', [z], (1, c), axes=[0])
            else: a = init([0], True); y = add('Squeeze', [x, a], (1, c)); T.pop(y); z = add('Tanh', [y], (1, c)); T.pop(z); add('Unsqueeze', [z, a], (1, c))
    last = list(T)[-1]
    if loop:
        r, c = T[last]
        if r > 1: last = add('Reshape', [last, init([1, r * c], True)], (1, r * c)); c = r * c
        y = add('Gemm', [last, init(rnd(rng, c, 2)), init(rnd(rng, 2))], (1, 2)); last = add('Tanh', [y], (1, 2))
    elif not nodes: last = add('Tanh', [last], T[last])
    return dict(ins=ins, inits=inits, nodes=nodes, f32=f32, opset=opset, out=last)

def proto(N, every=False):
    import onnx
    from onnx import helper as h, TensorProto as TP, numpy_helper as nh
    t = TP.FLOAT if N['f32'] else TP.DOUBLE; ft = np.float32 if N['f32'] else np.float64
    nodes = []
    for q in N['nodes']:
        at = dict(q['at']); order = at.pop('order', None); n = h.make_node(q['op'], q['i'], [q['o']], name='node ' + q['o'], **at)
        if order: a = list(n.attribute); del n.attribute[:]; n.attribute.extend([a[k] for k in order])
        nodes.append(n)
    outs = [q['o'] for q in N['nodes'] if q['op'] != 'Shape'] if every else [N['out']]
    g = h.make_graph(nodes, 'g', [h.make_tensor_value_info(n, t, s) for n, s in N['ins']], [h.make_tensor_value_info(n, t, None) for n in outs],
                     [nh.from_array(np.array(v['v'], np.int64 if v['i64'] else ft), n) for n, v in N['inits'].items()])
    return h.make_model(g, opset_imports=[h.make_opsetid('', N['opset'])])

class Ref:
    """values of all layers by ONNX's own evaluator"""
    def __init__(self, N):
        import onnx.reference
        self.N = N; self.outs = [q['o'] for q in N['nodes'] if q['op'] != 'Shape']; self.ev = onnx.reference.ReferenceEvaluator(proto(N, True))
    def __call__(self, v):
        ft = np.float32 if self.N['f32'] else np.float64
        with np.errstate(all='ignore'): r = dict(zip(self.outs, self.ev.run(None, {k: np.array(a, ft) for k, a in v.items()})))
        r.update({k: np.array(a, float) for k, a in v.items()}); return r

BAD = ['name', 'missing', 'extra', 'type']
class C20(ClCheck):
    pid = 'C20'
    batch = 20
    runs = {'quick': 1200, 'thorough': 60000}
    cap = {'quick': 25, 'thorough': 1500}
    shrink_lists = [('ops',)]
    real = ['do_mpc.sysid', 'do_mpc.simulator', 'casadi', 'onnx']
    rule = 'at least two conversions succeeded and one failed, was interrupted or took place while another thread converted or stepped; distinct if values and schedules differ'
    def gen(self, rng, idx, tier):
        loop = rng.chance(0.5); nets = [gen_net(rng, 3 if loop else None)]
        for _ in range(rng.randint(0, 2)): nets.append(gen_net(rng))
        conv = list(range(len(nets))) + ([0] if rng.chance(0.4) else []); bad = rng.chance(0.3) and rng.randint(0, len(conv) - 1)
        ops = []
        for _ in range(rng.randint(3, 8)):
            c = rng.randint(0, len(conv) - 1); r = rng.random()
            if r < 0.3 and loop:
                q = {'op': 'step', 'u': [rng.fl(-1, 1, 3)]}
                if rng.chance(0.3): q['fault'] = rng.pick([{'k': 'int', 'n': rng.randint(1, 60)}, {'k': 'raise'}, {'k': 'bad-u', 'b': rng.pick(BADS)}])
                ops.append(q); continue
            q = self.conv(rng, c)
            if rng.chance(0.25): q['reuse'] = 1                  # the arrays of an earlier conversion, changed in place
            elif rng.chance(0.3): q['int'] = rng.pick([rng.randint(1, 12), rng.randint(1, 90)])
            elif rng.chance(0.2): q['bad'] = rng.pick(BAD)
            elif rng.chance(0.12): q['unsupported'] = rng.randint(0, 8)
            elif rng.chance(0.3): q['par'] = [self.conv(rng, rng.randint(0, len(conv) - 1)) for _ in range(rng.randint(1, 2))]; q['watch'] = rng.chance(0.5)
            ops.append(q)
        return dict(nets=nets, conv=conv, ops=ops, loop=loop, sym=rng.pick(['SX', 'MX']), x0=[rng.fl(-1, 1, 3), rng.fl(-1, 1, 3)], pre=rng.pick([0.05, 0.2, 0.5]), seed=rng.randint(0, 1 << 40))
    def conv(self, rng, c): return {'op': 'convert', 'c': c, 'how': rng.pick(['np', 'dm', 'sx', 'mx', 'mix']), 'seed': rng.randint(0, 1 << 30), 'verbose': rng.chance(0.1)}
    def simplify(self, case):
        yield from super().simplify(case)
        for i, q in enumerate(case['ops']):
            for k in ('int', 'bad', 'unsupported', 'par', 'watch', 'verbose', 'reuse'):
                if q.get(k): c = json_copy(case); c['ops'][i].pop(k); yield c
        if case['loop'] and not any(q['op'] == 'step' for q in case['ops']): c = json_copy(case); c['loop'] = False; yield c
    # inputs of a conversion: (arguments, symbols, function from values to arguments)
    def args(self, N, q):
        import casadi as ca
        rg = np.random.RandomState(q['seed'] % (1 << 31)); a, sy = {}, {}; val = {}
        for j, (n, s) in enumerate(N['ins']):
            h = q['how'] if q['how'] != 'mix' else ['np', 'dm', 'sx'][(q['seed'] + j) % 3]; val[n] = np.round(rg.normal(size=s), 3)
            if h in ('sx', 'mx'): sy[n] = a[n] = (ca.SX if h == 'sx' else ca.MX).sym(n, *s)
            else: a[n] = val[n].astype(np.float32 if N['f32'] else float) if h == 'np' else ca.DM(val[n])
        return a, sy, val
    def value(self, e, sy, val):
        import casadi as ca
        if isinstance(e, (ca.SX, ca.MX)): e = ca.Function('f', list(sy.values()), [e])(*[val[k] for k in sy])
        return np.array(e.full() if hasattr(e, 'full') else e, float)
    def check(self, ci, what, tol=None):
        """every layer of a converter against the last conversion that succeeded"""
        st = self.state[ci]; C = self.C[ci]; N = self.nets[ci]; pid = self.pid
        if st is None: return True
        sy, val = st; rg = np.random.RandomState(abs(hash(tuple(sorted((k, v.tobytes()) for k, v in val.items())))) % 7 if False else 1)
        for k in range(2 if sy else 1):
            v = dict(val) if k == 0 else {n: (np.round(rg.normal(size=a.shape), 3) if n in sy else a) for n, a in val.items()}
            R = self.R[ci](v)
            for n, r in R.items():
                try: e = C[n]
                except Exception as x: self.out.violation(pid, 'query', '%s: layer %s of converter %d: %r' % (what, n, ci, x)); return False
                got = self.value(e, sy, v); lim = (2e-4 if N['f32'] else 1e-8) * (1 + np.abs(r).max(initial=0))
                if got.size != r.size or (r.ndim == 2 and got.ndim == 2 and got.shape != r.shape): self.out.violation(pid, 'shape', '%s: layer %s of converter %d has shape %s, the network %s' % (what, n, ci, got.shape, r.shape)); return False
                if not np.all(np.isfinite(r)): continue
                if not np.all(np.abs(got.reshape(-1) - r.reshape(-1)) <= lim): self.out.violation(pid, 'value', '%s: layer %s of converter %d (%s) is %s, the network gives %s' % (what, n, ci, next((q['op'] for q in N['nodes'] if q['o'] == n), 'input'), sh(got), sh(r))); return False
        return True
    def convert(self, ci, q, C=None):
        import contextlib, io
        a, sy, val = self.args(self.nets[ci], q); b = q.get('bad'); k = list(a)[0]; kept = {} if C else self.kept.setdefault(ci, {})
        for n in a if q.get('reuse') else ():
            if n in kept and not b and n not in sy and type(kept[n]) is type(a[n]): kept[n][:, :] = a[n]; a[n] = kept[n]; self.out.faults['array re-used'] += 1
        kept.update(a)
        if b == 'name': a['other'] = a.pop(k)
        if b == 'missing': a.pop(k)
        if b == 'extra': a['other'] = np.ones((1, 1))
        if b == 'type': a[k] = np.ones(self.nets[ci]['ins'][0][1]).tolist()
        with contextlib.redirect_stdout(io.StringIO()) if not sched.cur_thread() else contextlib.nullcontext(): (C or self.C[ci]).convert(**dict({'verbose': True} if q.get('verbose') and not sched.cur_thread() else {}, **a))
        return sy, val
    def run(self, case, out):
        from . import cl3
        import casadi as ca
        dm = self.dm; pid = self.pid; self.out = out; P = cl3.Plain(out)
        pr = [proto(N) for N in case['nets']]; ids = case['conv']; self.nets = [case['nets'][i] for i in ids]; self.C = [dm.sysid.ONNXConversion(pr[i]) for i in ids]; R = [Ref(N) for N in case['nets']]; self.R = [R[i] for i in ids]
        self.kept = {}; self.state = [None] * len(ids); nok = nev = ns = 0; sim = None; plan = case.get('plan') or {}; rec = []
        if case['loop']:
            m = dm.model.Model('discrete', case['sym']); x = m.set_variable('_x', 'x', (2, 1)); u = m.set_variable('_u', 'u'); C = self.C[0]
            z = ca.vertcat(x, u).T; C.convert(x=z); y = C[self.nets[0]['out']]; m.set_rhs('x', 0.5 * x + y.T); m.set_meas('y', C[self.nets[0]['nodes'][-2]['o']].T)
            m.setup(); sim = dm.simulator.Simulator(m); sim.settings.t_step = 1.0; sim.setup(); X = np.array(case['x0'], float); sim.x0 = X.reshape(-1, 1); sy0 = None
            f = lambda X, u: self.R[0]({'x': np.concatenate([X, u]).reshape(1, -1)})
        for i, q in enumerate(case['ops']):
            what = 'op %d %s' % (i, q['op'])
            if q['op'] == 'step':
                if sim is None: continue
                fl = q.get('fault'); u = np.array(q['u'], float).reshape(-1, 1)
                for turn in (0, 1):
                    r = P.call(lambda: sim.make_step(bad_value(fl['b'], 1) if fl and fl['k'] == 'bad-u' and not turn else u), fl if not turn else None)
                    if r[0] == 'ok': break
                    nev += 1
                    if turn or not fl or not (P.last.fired or fl['k'] == 'bad-u'): out.violation(pid, 'spurious-error', '%s raised %r' % (what, r[1])); return
                v = f(X, u.reshape(-1)); X = 0.5 * X + v[self.nets[0]['out']].reshape(-1); y = f(X, u.reshape(-1))[self.nets[0]['nodes'][-2]['o']].reshape(-1); tol = 2e-4 if self.nets[0]['f32'] else 1e-7
                if not close(flat(sim.x0), X, tol): out.violation(pid, 'trajectory', '%s: state %s of a model with a converted network, the network gives %s' % (what, sh(flat(sim.x0)), sh(X))); return
                if not close(flat(r[1]), y, tol): out.violation(pid, 'measurement', '%s: measurement %s of a model with a converted network, the network gives %s' % (what, sh(r[1]), sh(y))); return
                X = flat(sim.x0).copy(); ns += 1; out.log(np.round(X, 4).tolist()); continue
            ci = q['c']
            if q.get('par'):
                w = self.together(case, i, q, plan.get(str(i)), rec, what)
                if w is None: return
                nok += w; nev += 1; continue
            if q.get('unsupported') is not None:
                # a graph with an operator that is not supported is refused, and touches no other converter
                N = copy.deepcopy(self.nets[ci]); k = min(q['unsupported'], len(N['nodes'])); src = N['nodes'][k - 1]['o'] if k else N['ins'][0][0]
                N['nodes'].insert(k, dict(op='Softsign', i=[src], o='bad', at={}))
                bad = dm.sysid.ONNXConversion(proto(N))
                try: self.convert(ci, q, bad)
                except Exception: nev += 1; out.faults['unsupported operator'] += 1
                else: out.violation(pid, 'unsupported', '%s: a graph with an operator that is not supported was converted' % what); return
            else:
                r = P.call(lambda: self.convert(ci, q), {'k': 'int', 'n': q['int']} if q.get('int') else None)
                if r[0] == 'ok':
                    if q.get('bad'): out.violation(pid, 'bad-accepted', '%s: inputs with %s were accepted' % (what, {'name': 'a wrong name', 'missing': 'one missing', 'extra': 'one too many', 'type': 'a wrong type'}[q['bad']])); return
                    self.state[ci] = r[1]; nok += 1
                elif isinstance(r[1], KeyboardInterrupt) and q.get('int'): nev += 1
                elif q.get('bad'): nev += 1; out.faults['rejected inputs'] += 1
                else:
                    import traceback
                    out.violation(pid, 'failed', '%s: conversion failed: %s' % (what, ''.join(traceback.format_exception(r[1])[-2:])[-500:])); return
            for k in range(len(ids)):
                if case['loop'] and self.state[k] is None and k == 0: continue
                if not self.check(k, what + ' then'): return
            out.log([[n, np.round(self.R[ci](s[1])[n], 3).tolist()] for s in [self.state[ci]] if s for n in (self.nets[ci]['out'],)])
        out.rec = {str(a): b for a, b in rec} or None
        out.sim_time = float(ns); out.stats['steps'] += ns; out.stats['conversions'] += nok
        out.nontrivial = nok >= 2 and nev >= 1; out.summary = '%d conversions, %d steps' % (nok, ns)
    def together(self, case, i, q, plan, rec, what):
        """several threads convert (each with its own converter); one may read a converter in the meantime"""
        pid = self.pid; out = self.out; jobs = [q]; used = {q['c']}
        for p in q['par']:
            if p['c'] not in used: used.add(p['c']); jobs.append(p)
        sim = sched.Sim(rng=None if plan is not None else Rng(case['seed'], 'c20', i), plan=plan if plan is not None else None, preempt_p=case['pre'], max_lines=2_000_000); res = {}; seen = []; old = self.state[q['c']]
        name = self.nets[q['c']]['out']
        def job(p): res[p['c']] = self.convert(p['c'], p)
        def watch():
            for _ in range(4):
                try: seen.append(self.C[q['c']][name])
                except Exception as e: seen.append(e)
                sched.cur_thread() and sim.yield_() if hasattr(sim, 'yield_') else None
        def main():
            for k, p in enumerate(jobs[1:]): sim.spawn(lambda p=p: job(p), 'convert%d' % k)
            if q.get('watch') and old is not None: sim.spawn(watch, 'watch')
            job(q)
        sim.run(main); rec.append((i, sim.dev)); out.log(sim.dev)
        if sim.thread_excs or sim.aborting:
            if sim.aborting: raise Harness('aborted: %s' % sim.aborting)
            out.violation(pid, 'failed', '%s: converting in several threads failed: %r' % (what, sim.thread_excs[0][1])); return None
        for c, s in res.items(): self.state[c] = s
        out.faults['concurrent conversions'] += len(jobs) - 1
        for k in used:
            if not self.check(k, what + ' with concurrent conversions, then'): return None
        for e in seen:
            ok = False
            for s in (old, res[q['c']]):
                if isinstance(e, Exception): continue
                try: got = self.value(e, s[0], s[1]); r = self.R[q['c']](s[1])[name]
                except Exception: continue
                ok = ok or got.size == r.size and (not np.all(np.isfinite(r)) or np.all(np.abs(got.reshape(-1) - r.reshape(-1)) <= 3e-4 * (1 + np.abs(r).max(initial=0))))
            if not ok: out.violation(pid, 'torn', '%s: a query during a conversion gave %s, neither the last nor the new value' % (what, e)); return None
        return len(res)
