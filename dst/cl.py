"""C01-C12, C15: closed-loop histories of simulator, controllers and estimators with faults."""
import warnings, json
import numpy as np
from .runner import Check, Violation, Harness
from .rng import Rng
from . import load, mods, sched
from .loops import *

STUB = ['user functions (parameters, time-varying parameters, measurements)', 'outcome of faulted solver and integrator calls']
def close(a, b, tol=1e-6):
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape: return False
    return bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | (np.isnan(a) & np.isnan(b))))
def sh(v): return np.array2string(np.asarray(v, float).reshape(-1), precision=8, max_line_width=200)

def vec(rng, n, m=1.0): return [rng.fl(-m, m, 3) for _ in range(n)]

def gen_sim_ops(rng, s, n, pf, resets=True, ints=1.0):
    ops = []
    for _ in range(n):
        c = rng.random()
        if resets and c < 0.05: ops.append({'op': 'reset'})
        elif resets and c < 0.09: ops.append({'op': 'setx', 'x': vec(rng, s['nx']), 'how': rng.pick(['np', 'dm', 'struct']), 'mut': rng.randint(0, 1)})
        elif resets and c < 0.12: ops.append({'op': 'sett', 't': rng.pick([0, 3, 1.5, 10.25]), 'how': rng.pick(['np', 'raw'])})
        elif resets and c < 0.15 and s['nz']: ops.append({'op': 'initz'})
        else:
            o = {'op': 'step', 'u': vec(rng, s['nu']), 'how': rng.pick(['np', 'np', 'dm', 'struct'])}
            if mods.n_w(s) and rng.chance(0.6): o['w'] = vec(rng, mods.n_w(s), 0.2)
            if mods.n_v(s) and rng.chance(0.6): o['v'] = vec(rng, mods.n_v(s), 0.2)
            if rng.chance(pf): o['fault'] = gen_sim_fault(rng, s, ints)
            if rng.chance(0.3): o['mut'] = 1
            ops.append(o)
    return ops

def gen_sim_fault(rng, s, ints=1.0):
    ks = [('int', 5 * ints), ('bad-u', 1)]
    if s['nt']: ks.append(('tvp', 2))
    if s['np']: ks.append(('p', 2))
    if s['type'] == 'continuous' or s['nz']: ks.append(('raise', 3))
    if s['type'] == 'discrete' and s['nz']: ks.append(('fail', 1))
    if s['w']: ks.append(('bad-w', 1))
    if mods.n_v(s): ks.append(('bad-v', 1))
    k = rng.weighted(ks); f = {'k': k}
    if k == 'int': f['n'] = rng.pick([rng.randint(1, 30), rng.randint(1, 70), rng.randint(20, 160)])
    if k.startswith('bad'): f['b'] = rng.pick(BADS)
    if k == 'fail': f['g'] = rng.randint(1, 1000); f['amp'] = rng.pick([0.1, 1.0, 5.0])
    return f

class ClCheck(Check):
    batch = 20
    case_timeout = 60
    runs = {'quick': 1500, 'thorough': 60000}
    cap = {'quick': 30, 'thorough': 1500}
    shrink_lists = [('ops',)]
    stub = STUB
    real = ['do_mpc', 'casadi with IPOPT and SUNDIALS']
    assumptions = ['one process; user functions are deterministic in time; models of 1-3 states']
    def prepare(self): self.dm = load.load(); load.warm()
    def simplify(self, case):
        for i, o in enumerate(case.get('ops', [])):
            if not isinstance(o, dict): continue
            if o.get('fault'):
                c = json.loads(json.dumps(case)); del c['ops'][i]['fault']; yield c
            if o.get('how') not in (None, 'np'):
                c = json.loads(json.dumps(case)); c['ops'][i]['how'] = 'np'; yield c
            for k in ('w', 'v'):
                if k in o: c = json.loads(json.dumps(case)); del c['ops'][i][k]; yield c

# ------------------------------------------------------------------ C01
class C01(ClCheck):
    pid = 'C01'
    rule = 'at least three steps succeeded and at least one fault, reset or change of state happened; distinct if the sequence of states, times and results differs'
    def gen(self, rng, idx, tier):
        s = mods.gen_spec(rng, auto=0.08)
        return dict(s=s, sig=mods.gen_sig(rng, s), mode=rng.pick(['same', 'fresh']), x0=vec(rng, s['nx']), ops=gen_sim_ops(rng, s, rng.randint(4, 14), rng.pick([0, 0.2, 0.4])),
                    zguess=rng.chance(0.3), meas_u=rng.chance(0.2) and s['meas'] != 'default',
                    st=rng.pick([{}, {}, {'abstol': 1e-12}, {'integration_opts': {'max_num_steps': 100000}}]) if s['type'] == 'continuous' else {})
    def run(self, case, out):
        s = case['s']; L = SimLoop(self.dm, s, case['sig'], out, case['meas_u'], case['mode'], case['st'])
        L.init(case['x0'], [0.3] * s['nz'] if case['zguess'] else None)
        nstep = nother = 0; tol = 1e-6 if s['type'] == 'discrete' else 3e-6
        for i, op in enumerate(case['ops']):
            before = (L.x.copy(), L.t)
            res, exp = L.do(op)
            f = op.get('fault'); what = 'op %d %s%s' % (i, op['op'], (' fault %s' % f['k']) if f else '')
            if not L.expect_ok(res, f, 'C01', what): return
            if f and f['k'].startswith('bad') and res[0] == 'ok' and op['op'] == 'step':
                out.violation('C01', 'bad-accepted', '%s: an argument of wrong type or shape (%s) was accepted' % (what, f['b'])); return
            if f and f['k'] in ('fail', 'raise', 'tvp', 'p') and L.last.fired and res[0] == 'ok':
                # acceptable only if the result is right nevertheless (e.g. a retry)
                pass
            if op['op'] == 'step' and res[0] == 'ok':
                nstep += 1
                y = arr(res[1])
                out.log(np.round(y, 6).tolist())
                if not (y.shape == exp[2].shape and close(y, exp[2], tol)):
                    out.violation('C01', 'measurement', '%s at t=%g: returned measurement %s, the model gives %s' % (what, before[1], sh(y), sh(exp[2]))); return
            else: nother += 1
            if op['op'] == 'initz' and s['nz'] and not close(flat(L.sim.z0), L.z.reshape(-1), 1e-5):
                out.violation('C01', 'initz', '%s: algebraic state %s, the model gives %s' % (what, sh(L.sim.z0.cat.full()), sh(L.z))); return
            if not close(arr(L.sim.x0), L.x, tol):
                out.violation('C01', 'state', '%s at t=%g: simulator state %s, the model gives %s' % (what, before[1], sh(arr(L.sim.x0)), sh(L.x))); return
            if not close(flat(L.sim.t0), [L.t], 1e-9):
                out.violation('C01', 'time', '%s: simulator time %s, expected %g' % (what, sh(flat(L.sim.t0)), L.t)); return
            if op['op'] == 'step' and res[0] == 'ok' and s['nz'] and not close(flat(L.sim.sim_z_num), L.z.reshape(-1), 1e-5): pass
            # integration errors must not accumulate into false alarms: continue from the simulated state
            L.x = arr(L.sim.x0).copy()
        out.sim_time = nstep * s['tstep']; out.stats['steps'] += nstep
        out.nontrivial = nstep >= 3 and nother >= 1
        out.summary = '%d steps, %s model' % (nstep, s['type'])

# ------------------------------------------------------------------ C02 / C03
def gen_mpc_fault(rng, s, ints=1.0):
    ks = [('raise', 3), ('fail', 4), ('int', 3 * ints), ('bad-x', 1)]
    if s['nt']: ks.append(('tvp', 2))
    if s['np']: ks.append(('p', 2))
    k = rng.weighted(ks); f = {'k': k}
    if k == 'int': f['n'] = rng.pick([rng.randint(1, 60), rng.randint(1, 200), rng.randint(60, 400)])
    if k.startswith('bad'): f['b'] = rng.pick(BADS)
    if k == 'fail': f.update(g=rng.randint(1, 1000), amp=rng.pick([0.0, 0.3, 2.0]), st=rng.pick(['Maximum_Iterations_Exceeded', 'Infeasible_Problem_Detected', 'Restoration_Failed']))
    return f

def gen_bound_op(rng, s, c):
    """a change of bounds between steps"""
    kinds = ['u', 'u', 'x', 'xt']
    if s['nz']: kinds.append('z')
    k = rng.pick(kinds)
    if k == 'u': return {'op': 'bound', 'v': 'u', 'i': rng.randint(0, s['nu'] - 1), 'lo': -rng.fl(0.1, 2, 2), 'hi': rng.fl(0.1, 2, 2)}
    if k == 'z': return {'op': 'bound', 'v': 'z', 'i': rng.randint(0, s['nz'] - 1), 'lo': -rng.fl(4, 8, 2), 'hi': rng.fl(4, 8, 2)}
    if k == 'xt' and c['uterm'] == 'none': k = 'x'
    return {'op': 'bound', 'v': k, 'i': rng.randint(0, s['nx'] - 1), 'lo': -rng.fl(2.2, 5, 2), 'hi': rng.fl(2.2, 5, 2)}

class MpcCheck(ClCheck):
    runs = {'quick': 700, 'thorough': 30000}
    opt = False
    batch = 12
    nlp_kw = {}
    rule = 'at least two steps reported success and one fault, rejected call or reconfiguration happened; distinct if the inputs, states and outcomes differ'
    def gen(self, rng, idx, tier):
        s = mods.gen_spec(rng, nx=rng.pick([1, 2, 2]), nonlin=rng.chance(0.3), nw=False if rng.chance(0.7) else True)
        c = gen_mpc(rng, s)
        ops = []
        pf = rng.pick([0.0, 0.2, 0.4])
        for _ in range(rng.randint(3, 8)):
            if rng.chance(0.12): ops.append(gen_bound_op(rng, s, c)); continue
            if rng.chance(0.06): ops.append({'op': 'setu', 'u': vec(rng, s['nu'])}); continue
            if rng.chance(0.05): ops.append({'op': 'reset', 'x': vec(rng, s['nx']), 'guess': rng.chance(0.5)}); continue
            if rng.chance(0.05): ops.append({'op': 'sett', 't': rng.pick([0, 3, 1.5])}); continue
            o = {'op': 'step', 'how': rng.pick(['np', 'np', 'dm', 'struct', 'flat'])}
            if ops and rng.chance(0.15): o['again'] = 1           # same state and previous input as in the last step, at the next time
            elif rng.chance(0.5): o['x'] = vec(rng, s['nx'], rng.pick([0.5, 1.5]))
            else: o['next'] = 1           # the model's own successor
            if rng.chance(pf): o['fault'] = gen_mpc_fault(rng, s)
            if rng.chance(0.2): o['mut'] = 1
            ops.append(o)
        return dict(s=s, c=c, sig=mods.gen_sig(rng, s), mode=rng.pick(['same', 'fresh']), x0=vec(rng, s['nx']), ops=ops)
    def run(self, case, out):
        pid = self.pid; s = case['s']; c = dict(case['c'])
        L = MpcLoop(self.dm, s, c, case['sig'], out, case['mode'])
        L.init(case['x0'])
        x = np.array(case['x0'], float); nok = nother = 0; after_fault = False; last = None
        for i, op in enumerate(case['ops']):
            f = op.get('fault'); what = 'op %d %s%s' % (i, op['op'], (' fault %s' % f['k']) if f else '')
            if op['op'] == 'step':
                op = dict(op)
                if op.get('again') and last is not None: op['x'] = last[0]; L.u = last[1].copy(); L.mpc.u0 = L.u.copy()
                if 'x' not in op: op['x'] = [float(v) for v in x]
                last = (op['x'], L.u.copy())
                res, _ = L.step_op(op)
                if not L.expect_ok(res, f, pid, what): return
                if res[0] == 'err': nother += 1; out.log('err'); continue
                if f and f['k'].startswith('bad'): out.violation(pid, 'bad-accepted', '%s: an argument of wrong type or shape (%s) was accepted' % (what, f['b'])); return
                stats = L.mpc.solver_stats
                out.log(np.round(L.u.reshape(-1), 4).tolist(), bool(stats['success']))
                tt, pp = mods.tvp_at(s, case['sig'], L.cur[3]), L.cur[2][0]
                x = mods.step(s, np.array(op['x'], float), L.u, tt, pp, [0.0] * mods.n_w(s))[0].reshape(-1)
                if not np.all(np.isfinite(x)) or np.max(np.abs(x)) > 20: x = np.array(case['x0'], float)
                if f and f['k'] == 'fail' and L.last.fired: nother += 1; after_fault = True; continue
                if not stats['success']:
                    # is the problem solvable at all?
                    R = L.ref; X0, T, P, t = L.cur
                    v0 = np.zeros(R.V.n)
                    xr, fr, ok, st = R.solve(R.params(X0, L.uprev, T, P), L.B, v0)
                    if ok and self.opt: out.violation(pid, 'no-recovery', '%s at t=%g: the solver reports %s although no fault is active and the problem is solvable' % (what, t, stats['return_status'])); return
                    out.stats['unsolved'] += 1; continue
                nok += 1
                if not L.check_plan(pid, what, opt=self.opt): return
            else:
                nother += 1
                self.other(L, op, what, out)
                if out.viol: return
        out.sim_time = nok * s['tstep']; out.stats['steps'] += nok
        out.nontrivial = nok >= 2 and nother >= 1
        out.summary = '%d planned steps, %s, N=%d, robust %d' % (nok, s['type'], c['N'], c['nr'])
    def other(self, L, op, what, out):
        s = L.s; k = op['op']
        if k == 'setu': L.u = np.array(op['u'], float).reshape(-1, 1); L.mpc.u0 = L.u.copy()
        elif k == 'sett': L.t = float(op['t']); L.mpc.t0 = op['t'] if isinstance(op['t'], int) else np.array([op['t']])
        elif k == 'reset':
            L.mpc.reset_history(); L.t = 0.0; L.rows = []
            if op['guess']: L.init(op['x'], u=np.zeros(s['nu']))
        elif k == 'bound': set_bound(L, op)

def set_bound(L, op):
    s = L.s; mpc = L.mpc; v = op['v']; i = op['i']
    f = {'u': '_u', 'z': '_z'}.get(v, '_x'); idx = (f,) + mods.el(s, f, i)
    for side, bt, val in ((0, 'lower', op.get('lo')), (1, 'upper', op.get('hi'))):
        if val is None: continue
        if v == 'xt': mpc.terminal_bounds[(bt,) + idx[1:]] = val; L.follow[side] = False
        else: mpc.bounds[(bt,) + idx] = val
        L.B[v][side][i] = val
        if v == 'x' and L.follow[side]: L.B['xt'][side] = list(L.B['x'][side])

class C02(MpcCheck): pid = 'C02'
class C03(MpcCheck):
    pid = 'C03'; opt = True

# ------------------------------------------------------------------ C04
def gen_mhe_fault(rng, s, c, ints=1.0):
    ks = [('raise', 3), ('fail', 3), ('int', 3 * ints), ('bad-y', 1)]
    if s['nt']: ks.append(('tvp', 2))
    if s['np'] > len(c['pe']): ks.append(('p', 2))
    if c['yfun'] == 'user': ks.append(('y', 2))
    k = rng.weighted(ks); f = {'k': k}
    if k == 'int': f['n'] = rng.pick([rng.randint(1, 60), rng.randint(1, 200), rng.randint(60, 400)])
    if k.startswith('bad'): f['b'] = rng.pick(BADS)
    if k == 'fail': f.update(g=rng.randint(1, 1000), amp=rng.pick([0.0, 0.3]), st=rng.pick(['Maximum_Iterations_Exceeded', 'Infeasible_Problem_Detected']))
    return f

def set_mhe_bound(L, op):
    v, i = op['v'], op['i']
    if v == 'p': idx = ('_p_est',) + mods.el(L.s, '_p', L.c['pe'][i])
    else: idx = ('_' + v,) + mods.el(L.s, '_' + v, i)
    for side, bt, val in ((0, 'lower', op.get('lo')), (1, 'upper', op.get('hi'))):
        if val is None: continue
        L.mhe.bounds[(bt,) + idx] = val; L.B[v][side][i] = val

def xidx(s, i): return mods.el(s, '_x', i)

def steady(s, u, t, p):
    """a steady state of the model, or None"""
    import scipy.optimize
    f = lambda x: (mods.step(s, x, u, t, p, [0.0] * mods.n_w(s))[0].reshape(-1) - x)
    r = scipy.optimize.root(f, np.zeros(s['nx']), tol=1e-13)
    return r.x if np.max(np.abs(f(r.x))) < 1e-11 and np.max(np.abs(r.x)) < 4 else None

def mhe_spec(rng, **kw):
    s = mods.gen_spec(rng, nx=rng.pick([1, 2, 2]), nonlin=rng.chance(0.3), auto=0.06, **kw)
    if s['meas'] == 'default': s['meas'] = 'full'
    if not s['w'] and not s['v']: s['v'] = True
    # every measurement can be met: noise on all measurements or on all states
    if not s['v'] or s.get('vm'): s.pop('wm', None)
    if not s['w']: s.pop('vm', None)
    return s

class C04(ClCheck):
    pid = 'C04'
    batch = 12
    runs = {'quick': 700, 'thorough': 30000}
    rule = 'at least two estimation steps succeeded and one fault, rejected measurement or change of bounds happened; distinct if the estimates and outcomes differ'
    def gen(self, rng, idx, tier):
        s = mhe_spec(rng); c = gen_mhe(rng, s); sig = mods.gen_sig(rng, s)
        rec = rng.chance(0.2)
        if rec:                       # noise-free data from a steady state: the estimates have to be the true states
            s['nonlin'] = False; c['cons'] = []; c['xub'] = [float('inf')] * s['nx']; c['xlb'] = [-float('inf')] * s['nx']; c['pub'] = [float('inf')] * len(c['pe']); c['plb'] = [-float('inf')] * len(c['pe'])
            c['zub'] = float('inf'); c['zlb'] = -c['zub']
            s['type'] = 'discrete' if rng.chance(0.7) else s['type']
            for q in sig['p']: q[1] = 0.0
            sig['tv'][1] = sig['tv'][2] = 0.0
        ops = []; pf = rng.pick([0.0, 0.2, 0.4])
        for _ in range(rng.randint(3, 9)):
            if not rec and rng.chance(0.08):
                v = rng.pick(['x', 'x'] + (['p'] if c['pe'] else []) + (['z'] if s['nz'] else []))
                n = {'x': s['nx'], 'p': len(c['pe']), 'z': s['nz']}[v]; m = {'x': (1.0, 3.0), 'p': (0.2, 1.0), 'z': (5.0, 9.0)}[v]
                ops.append({'op': 'bound', 'v': v, 'i': rng.randint(0, n - 1), 'lo': -rng.fl(*m, 2), 'hi': rng.fl(*m, 2)}); continue
            if not rec and rng.chance(0.07):
                g = {'x': vec(rng, s['nx'], 0.5), 'p': vec(rng, len(c['pe']), 0.3)}
                ops.append(rng.pick([{'op': 'reset'}, {'op': 'reset', 'init': g}, {'op': 'init', 'init': g}])); continue
            o = {'op': 'step', 'u': vec(rng, s['nu']), 'how': rng.pick(['np', 'np', 'dm', 'struct', 'flat']), 'w': vec(rng, mods.n_w(s), 0.05) if s['w'] else None, 'v': vec(rng, mods.n_v(s), 0.1)}
            if rng.chance(0.3): o['retry'] = 1
            if rng.chance(0.2): o['mut'] = 1
            if rng.chance(pf): o['fault'] = gen_mhe_fault(rng, s, c)
            ops.append(o)
        return dict(s=s, c=c, sig=sig, mode=rng.pick(['same', 'fresh']), x0=vec(rng, s['nx'], 0.5), xg=vec(rng, s['nx'], 0.5), pg=vec(rng, len(c['pe']), 0.3), rec=rec, ops=ops, u0=vec(rng, s['nu'], 0.3))
    def run(self, case, out):
        pid = 'C04'; s, c, sig = case['s'], case['c'], case['sig']
        L = MheLoop(self.dm, s, c, sig, out, case['mode']); rec = case['rec']
        P0 = mods.p_at(s, sig, 0.0)
        if rec:
            xs = steady(s, case['u0'], mods.tvp_at(s, sig, 0.0), P0)
            if xs is None: rec = False
        if rec: xt = xs.copy(); L.init(xt, [P0[i] for i in c['pe']])
        else: xt = np.array(case['x0'], float); L.init(case['xg'], case['pg'])
        y = None; nok = nother = 0; fed = 0
        for i, op in enumerate(case['ops']):
            f = op.get('fault'); what = 'op %d %s%s' % (i, op['op'], (' fault %s' % f['k']) if f else '')
            if op['op'] == 'bound': set_mhe_bound(L, op); nother += 1; continue
            if op['op'] == 'reset': L.do(op); nother += 1; continue
            if op['op'] == 'init': L.init(**op['init']); nother += 1; continue
            if y is None or not op.get('retry') or rec is False:
                t, p = mods.tvp_at(s, sig, L.t), mods.p_at(s, sig, L.t)
                if rec and y is not None: pass            # a measurement is never lost in this mode
                else:
                    u = case['u0'] if (rec and fed < c['N']) else op['u']
                    w = [0.0] * mods.n_w(s) if rec else (op.get('w') or [])
                    v = [0.0] * mods.n_v(s) if rec else op['v']
                    xt, zt = mods.step(s, xt, u, t, p, w); xt = xt.reshape(-1); fed += 1
                    y = mods.ymeas(s, xt, u, zt, t, p, v, True).reshape(-1)
            o = dict(op, y=[float(q) for q in y])
            res, _ = L.step_op(o)
            if not L.expect_ok(res, f, pid, what): return
            if res[0] == 'err': nother += 1; out.log('err'); continue
            if f and f['k'].startswith('bad'): out.violation(pid, 'bad-accepted', '%s: a measurement of wrong type or shape (%s) was accepted' % (what, f['b'])); return
            y = None
            stats = L.mhe.solver_stats; out.log(np.round(L.x.reshape(-1), 4).tolist(), bool(stats['success']))
            if f and f['k'] == 'fail' and L.last.fired: nother += 1; rec = False; continue
            if not stats['success']:
                R = L.ref; prior, pprev, P, T, win, t = L.cur
                xr, fr, ok, st = R.solve(R.params(prior, pprev, P, T, win), L.B, np.zeros(R.V.n))
                if ok: out.violation(pid, 'no-recovery', '%s at t=%g: the solver reports %s although no fault is active and the problem is solvable' % (what, t, stats['return_status'])); return
                out.stats['unsolved'] += 1; rec = False; continue
            nok += 1
            if not L.check_plan(pid, what): return
            if rec and (s['type'] == 'discrete'):
                out.stats['true-states'] += 1
                if not close(L.x.reshape(-1), xt, 2e-5): out.violation(pid, 'not-true-state', '%s: noise-free data, estimate %s, true state %s' % (what, L.x.reshape(-1), xt)); return
        out.sim_time = nok * s['tstep']; out.stats['steps'] += nok
        out.nontrivial = nok >= 2 and nother >= 1
        out.summary = '%d estimates, %s, N=%d, estimated %s' % (nok, s['type'], c['N'], c['pe'])

# ------------------------------------------------------------------ C10
def gen_lqr_ops(rng, c, n, pf):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.25:
            o = {'op': 'set'}
            if rng.chance(0.7): o['xss'] = vec(rng, c['nx'])
            if rng.chance(0.6): o['uss'] = vec(rng, c['nu'])
            if rng.chance(0.3): o['mutate'] = 1
            if rng.chance(pf): o['fault'] = {'k': 'bad-ss', 'w': rng.pick(['xss', 'uss'])}
        elif r < 0.3: o = {'op': 'setu', 'u': vec(rng, c['nu'])}
        elif r < 0.34: o = {'op': 'reset'}
        elif r < 0.37: o = {'op': 'sett', 't': rng.pick([0, 3, 1.5])}
        else:
            o = {'op': 'step', 'x': vec(rng, c['nx'], 2.0), 'how': rng.pick(['np', 'np', 'np', 'struct'])}
            if rng.chance(pf):
                k = rng.pick(['int', 'int', 'bad-x']); o['fault'] = {'k': k}
                if k == 'int': o['fault']['n'] = rng.randint(1, 45)
                else: o['fault']['b'] = rng.pick(['none-str', 'long', 'dm', 'obj', 'list'])
        ops.append(o)
    return ops

class C10(ClCheck):
    pid = 'C10'
    runs = {'quick': 4000, 'thorough': 200000}
    batch = 50
    rule = 'at least two steps succeeded and one set-point change, reset, rejected or interrupted call happened; distinct if the inputs and outcomes differ'
    assumptions = ['one process; linear models of 1-3 states with one or two inputs']
    def gen(self, rng, idx, tier):
        c = gen_lqr(rng)
        return dict(c=c, ops=gen_lqr_ops(rng, c, rng.randint(4, 16), rng.pick([0.0, 0.2, 0.4])))
    def run(self, case, out):
        c = case['c']; L = LqrLoop(self.dm, c, out); pid = 'C10'; nok = nother = 0
        for i, op in enumerate(case['ops']):
            f = op.get('fault'); what = 'op %d %s%s' % (i, op['op'], (' fault %s' % f['k']) if f else '')
            t = L.t
            res, e = L.do(op)
            if not L.expect_ok(res, f, pid, what): return
            out.log(op['op'], res[0])
            if op['op'] != 'step' or res[0] == 'err': nother += 1; continue
            if f and f['k'].startswith('bad'): out.violation(pid, 'bad-accepted', '%s: a state of wrong type or shape (%s) was accepted' % (what, f['b'])); return
            nok += 1; u = arr(res[1]); out.log(np.round(u, 6).tolist())
            if u.shape != e.shape or not close(u, e, 1e-6):
                out.violation(pid, 'feedback', '%s at t=%g: returned input %s, the optimal feedback for the current set-points is %s' % (what, t, sh(u), sh(e))); return
            if not close(flat(L.lqr.u0), e.reshape(-1), 1e-6) or not close(flat(L.lqr.t0), [L.t], 1e-9):
                out.violation(pid, 'state', '%s: stored input %s / time %s, expected %s / %g' % (what, sh(flat(L.lqr.u0)), flat(L.lqr.t0), sh(e), L.t)); return
        out.sim_time = nok * c['tstep']; out.stats['steps'] += nok; out.nontrivial = nok >= 2 and nother >= 1
        out.summary = '%d steps, %s, horizon %s' % (nok, 'rate' if c['dR'] else 'standard', c['hor'])

# ------------------------------------------------------------------ histories of any kind of object
def gen_any(rng, kinds=('sim', 'sim', 'mpc', 'mpc', 'mhe', 'mhe', 'lqr'), **kw):
    """configuration of one object"""
    kind = rng.pick(kinds)
    if kind == 'lqr': return dict(kind=kind, c=gen_lqr(rng))
    if kind == 'sim':
        s = mods.gen_spec(rng, auto=0.08); return dict(kind=kind, s=s, sig=mods.gen_sig(rng, s), mode=rng.pick(['same', 'fresh']), st={}, meas_u=rng.chance(0.2) and s['meas'] != 'default')
    if kind == 'mpc':
        s = mods.gen_spec(rng, nx=rng.pick([1, 2, 2]), nonlin=rng.chance(0.3)); c = gen_mpc(rng, s)
        return dict(kind=kind, s=s, c=c, sig=mods.gen_sig(rng, s), mode=rng.pick(['same', 'fresh']))
    s = mhe_spec(rng); c = gen_mhe(rng, s)
    return dict(kind=kind, s=s, c=c, sig=mods.gen_sig(rng, s), mode=rng.pick(['same', 'fresh']))

def gen_step(rng, o):
    """one step operation for object o (all inputs fixed in advance)"""
    k = o['kind']
    if k == 'lqr': return {'op': 'step', 'x': vec(rng, o['c']['nx'], 2.0), 'how': rng.pick(['np', 'np', 'struct'])}
    s = o['s']
    if k == 'sim':
        d = {'op': 'step', 'u': vec(rng, s['nu']), 'how': rng.pick(['np', 'np', 'dm', 'struct'])}
        if mods.n_w(s) and rng.chance(0.5): d['w'] = vec(rng, mods.n_w(s), 0.2)
        if mods.n_v(s) and rng.chance(0.5): d['v'] = vec(rng, mods.n_v(s), 0.2)
        return d
    if k == 'mpc': return {'op': 'step', 'x': vec(rng, s['nx'], 0.8), 'how': rng.pick(['np', 'np', 'dm', 'struct', 'flat'])}
    return {'op': 'step', 'y': vec(rng, mods.n_y(s) + s['nu'], 0.5), 'how': rng.pick(['np', 'np', 'dm', 'struct', 'flat'])}

def gen_fault(rng, o, ints=1.0, kinds=None):
    k = o['kind']
    if k == 'lqr':
        q = rng.pick(['int', 'int', 'bad-x']); f = {'k': q}
        if q == 'int': f['n'] = rng.randint(1, 45)
        else: f['b'] = rng.pick(['none-str', 'long', 'dm', 'obj', 'list'])
        return f
    return {'sim': lambda: gen_sim_fault(rng, o['s'], ints), 'mpc': lambda: gen_mpc_fault(rng, o['s'], ints), 'mhe': lambda: gen_mhe_fault(rng, o['s'], o['c'], ints)}[k]()

def build(dm, o, out, model=None, vary=False):
    k = o['kind']
    if k == 'lqr': return LqrLoop(dm, o['c'], out, model)
    if k == 'sim': return SimLoop(dm, o['s'], o['sig'], out, o['meas_u'], o['mode'], o['st'], model=model, vary=vary)
    return (MpcLoop if k == 'mpc' else MheLoop)(dm, o['s'], o['c'], o['sig'], out, o['mode'], model=model, vary=vary)

def gen_init(rng, o):
    k = o['kind']
    if k == 'lqr': return {}
    d = {'x': vec(rng, o['s']['nx'], 0.8)}
    if k == 'mhe': d['p'] = vec(rng, len(o['c']['pe']), 0.3)
    if k in ('mpc', 'mhe') and rng.chance(0.5): d['u'] = vec(rng, o['s']['nu'], 0.5)
    return d
def obj(L): return getattr(L, 'sim', None) or getattr(L, 'mpc', None) or getattr(L, 'mhe', None) or L.lqr
def do(L, op):
    return L.do(op) if hasattr(L, 'do') else L.step_op(op)
def result(L, res): return arr(res[1]).reshape(-1)
def good(L):
    """did the optimiser report success (always for others)"""
    st = getattr(obj(L), 'solver_stats', None)
    return True if st is None else bool(st['success'])
def diff(a, b, tol):
    for k in a:
        if k not in b: return '%s missing' % k
        x, y = np.asarray(a[k], float), np.asarray(b[k], float)
        if x.shape != y.shape: return '%s has shape %s instead of %s' % (k, x.shape, y.shape)
        if not close(x, y, tol):
            i = np.unravel_index(np.argmax(np.nan_to_num(np.abs(x - y), nan=1e9)), x.shape) if x.size else ()
            return '%s%s is %.10g instead of %.10g' % (k, list(map(int, i)), x[i], y[i])
    return None

class AnyCheck(ClCheck):
    batch = 12
    runs = {'quick': 1000, 'thorough': 40000}
    kinds = ('sim', 'sim', 'mpc', 'mpc', 'mhe', 'mhe', 'lqr')
    fault_p = (0.2, 0.4, 0.6)
    nops = (3, 9)
    def gen(self, rng, idx, tier):
        o = gen_any(rng, self.kinds); pf = rng.pick(self.fault_p); ops = []
        for _ in range(rng.randint(*self.nops)):
            if o['kind'] == 'lqr' and rng.chance(0.2): ops += gen_lqr_ops(rng, o['c'], 1, 0.0); continue
            x = self.extra_op(rng, o)
            if x: ops.append(x); continue
            p = gen_step(rng, o)
            if rng.chance(0.3): p['mut'] = 1
            if rng.chance(pf): p['fault'] = gen_fault(rng, o, 2.0)
            ops.append(p)
        return dict(o=o, init=gen_init(rng, o), ops=ops)
    def extra_op(self, rng, o): return None

class C05(AnyCheck):
    pid = 'C05'
    rule = 'at least one step failed by an injected fault or rejected argument and a later one succeeded; distinct if the results and outcomes differ'
    def gen(self, rng, idx, tier):
        case = AnyCheck.gen(self, rng, idx, tier)
        for p in case['ops']:
            if p.get('fault') and rng.chance(0.7): p['retry'] = 1
        return case
    def run(self, case, out):
        o = case['o']; A, B = build(self.dm, o, out), build(self.dm, o, out); pid = 'C05'; nf = nok = 0
        A.init(**case['init']); B.init(**case['init']) if o['kind'] != 'lqr' else None
        tol = {'lqr': 1e-9, 'sim': 1e-6}.get(o['kind'], 1e-4); comparable = True
        for i, op in enumerate(case['ops']):
            f = op.get('fault'); what = 'op %d %s%s' % (i, op['op'], (' fault %s' % f['k']) if f else '')
            before = A.snap()
            res, _ = do(A, op)
            if not A.expect_ok(res, f, pid, what): return
            if res[0] == 'err':
                nf += 1; d = diff(A.snap(), before, 0.0)
                if d: out.violation(pid, 'trace-left', '%s %s raised %s and left a trace: %s' % (o['kind'], what, type(res[1]).__name__, d)); return
                if not op.get('retry'): continue
                res, _ = do(A, {k: v for k, v in op.items() if k != 'fault'})
                if not A.expect_ok(res, None, pid, what + ' (retried)'): return
            clean = {k: v for k, v in op.items() if k != 'fault'}
            if f and f['k'] == 'fail' and A.last.fired: clean = op       # an unsuccessful solve is not a failed step: the same happens to the twin
            if f and f['k'].startswith('bad'): 
                if op['op'] == 'set': continue
                if not op.get('retry'): out.violation(pid, 'bad-accepted', '%s: an argument of wrong type or shape was accepted' % what); return
            rb, _ = do(B, clean)
            if not B.expect_ok(rb, clean.get('fault'), pid, what + ' in the run without failures'): return
            if op['op'] != 'step': continue
            if rb[0] == 'err': return
            if clean is op or not (good(A) and good(B)): out.stats['unsolved'] += 1; return
            nok += 1; a, b = result(A, res), result(B, rb); out.log(np.round(a, 4).tolist())
            d = diff({'result': a}, {'result': b}, tol) or (diff(vars_of(A.snap()), vars_of(B.snap()), tol) if o['kind'] != 'mpc' or not o['c']['full'] else diff(vars_of(A.snap()), vars_of(B.snap()), tol))
            if d: out.violation(pid, 'not-as-if-never', '%s %s: after failed steps the run differs from one without them: %s' % (o['kind'], what, d)); return
        out.stats['steps'] += nok; out.stats['failed steps'] += nf
        out.sim_time = nok * (o['c']['tstep'] if o['kind'] == 'lqr' else o['s']['tstep'])
        out.nontrivial = nf >= 1 and nok >= 1
        out.summary = '%s: %d failed and %d successful steps' % (o['kind'], nf, nok)

PLANS = ('data._opt_x_num', 'data._opt_aux_num', 'data._eps', 'data.opt_p_num', 'data._aux', 'data._z')
def vars_of(snap):
    """what is determined uniquely by the problem (plans and multipliers may depend on the warm start)"""
    return {k: v for k, v in snap.items() if k not in PLANS and k != 'z0'}

# ------------------------------------------------------------------ C06
RECORDED = {'sim': ('_x', '_u', '_z', '_tvp', '_p', '_y', '_aux', '_time'), 'mpc': ('_x', '_u', '_z', '_tvp', '_p', '_aux', '_time', 'success'), 'mhe': ('_x', '_u', '_z', '_tvp', '_p', '_y', '_aux', '_time', 'success'), 'lqr': ('_x', '_u', '_time')}
def check_rows(L, kind, out, pid, what, tol):
    data = obj(L).data; n = len(L.rows); ex = data.export(); must = RECORDED[kind]
    for k, v in ex.items():
        v = np.asarray(v)
        if v.ndim != 2: out.violation(pid, 'row-count', '%s: field %s has %d dimensions' % (what, k, v.ndim)); return False
        if v.shape[0] != n and (v.shape[0] != 0 or (k in must and v.shape[1] > 0)):
            out.violation(pid, 'row-count', '%s: field %s has %d rows after %d successful steps since the last reset' % (what, k, v.shape[0], n)); return False
        if not np.array_equal(v, np.asarray(getattr(data, k)), equal_nan=True) and v.dtype != object: out.violation(pid, 'export', '%s: export of %s differs from the container' % (what, k)); return False
    for k in must:
        if k not in ex: out.violation(pid, 'row-count', '%s: field %s is not recorded' % (what, k)); return False
        rows = [r.get(k) for r in L.rows]
        for i, r in enumerate(rows):
            if r is None: continue
            got = np.asarray(ex[k][i], float).reshape(-1)
            if got.shape != np.shape(r) or not any(close(got, a, tol if k in ('_aux', '_y', '_x', '_u', '_z') else 1e-9) for a in [r] + L.rows[i].get(k + '.alt', [])):
                out.violation(pid, 'row-value', '%s: row %d of %s is %s, step %d had %s' % (what, i, k, sh(got), i, sh(r))); return False
    if kind != 'lqr' and n:
        s = L.s; qs = [((f,) + mods.el(s, f, i), f, i) for f, m in (('_x', 'nx'), ('_u', 'nu'), ('_p', 'np'), ('_tvp', 'nt'), ('_z', 'nz')) for i in range(s[m]) if np.asarray(ex[f]).shape[0] == n]
        qs += [((f, nm[0][0]), f, [0, 1]) for f in mods.NAMES for nm in [mods.NAMES[f](s)] if nm and nm[0][1] == 2 and np.asarray(ex[f]).shape[0] == n]
        for q, f, i in qs:
            got = np.asarray(data[q], float); e = np.asarray(ex[f], float)[:, i]
            if got.reshape(n, -1).shape != e.reshape(n, -1).shape or not np.array_equal(got.reshape(n, -1), e.reshape(n, -1)): out.violation(pid, 'query', '%s: data[%s] returns %s, recorded are %s' % (what, q, sh(got), sh(e))); return False
    return True

class C06(AnyCheck):
    pid = 'C06'
    runs = {'quick': 1300, 'thorough': 60000}
    rule = 'at least two steps succeeded and a failed step, reset or change of time happened; distinct if records and outcomes differ'
    fault_p = (0.0, 0.2, 0.4)
    def gen(self, rng, idx, tier):
        case = AnyCheck.gen(self, rng, idx, tier)
        if case['o']['kind'] in ('mpc', 'mhe') and rng.chance(0.4): case['o']['c']['stats'] = rng.pick([['success'], ['success', 'iter_count'], ['iter_count', 'success', 't_wall_total']])
        return case
    def extra_op(self, rng, o):
        if rng.chance(0.12): return {'op': 'reset', 'init': gen_init(rng, o)} if o['kind'] != 'sim' or rng.chance(0.5) else {'op': 'reset'}
        if rng.chance(0.06): return {'op': 'sett', 't': rng.pick([0, 3, 1.5]), 'how': 'raw'}
        if rng.chance(0.05) and o['kind'] == 'mpc': return {'op': 'setu', 'u': vec(rng, o['s']['nu'])}
        if rng.chance(0.12) and o['kind'] == 'sim' and o['s']['nz']: return {'op': 'setz', 'z': vec(rng, o['s']['nz'], 0.6)} if rng.chance(0.5) else {'op': 'initz'}
        if rng.chance(0.05) and o['kind'] == 'sim': return {'op': 'setx', 'x': vec(rng, o['s']['nx']), 'how': rng.pick(['np', 'dm', 'struct']), 'mut': rng.randint(0, 1)}
        return None
    def run(self, case, out):
        o = case['o']; L = build(self.dm, o, out); pid = self.pid; L.init(**case['init']); nok = nother = 0
        tol = 1e-9 if o['kind'] in ('lqr',) else (1e-6 if o['kind'] == 'sim' and o['s']['type'] == 'discrete' else 1e-5); full = []
        for i, op in enumerate(case['ops']):
            f = op.get('fault'); what = '%s op %d %s%s' % (o['kind'], i, op['op'], (' fault %s' % f['k']) if f else '')
            res, _ = do(L, op)
            if not L.expect_ok(res, f, pid, what): return
            if op['op'] != 'step' or res[0] == 'err': nother += 1
            else: nok += 1
            out.log(op['op'], res[0], np.round(L.t, 6))
            if o['kind'] == 'sim' and res[0] == 'ok' and op['op'] == 'step': L.x = arr(L.sim.x0).copy()
            if not check_rows(L, o['kind'], out, pid, what, tol): return
            if o['kind'] in ('mpc', 'mhe'):
                if op['op'] == 'reset': del full[:]
                elif op['op'] == 'step' and res[0] == 'ok': full.append(self.solved(L, o['c']))
                data = obj(L).data
                for key in (full[-1] if full else ()):
                    v = np.asarray(getattr(data, key)) if hasattr(data, key) else np.zeros((0, 1))
                    if len(v) != len(full): out.violation(pid, 'row-count', '%s: field %s has %d rows after %d successful steps since the last reset' % (what, key, len(v), len(full))); return
                    for j in ({0, len(full) - 1} if i < len(case['ops']) - 1 else range(len(full))):
                        if not close(np.asarray(v[j], float).reshape(-1), full[j][key], 1e-12): out.violation(pid, 'row-value', '%s: row %d of %s is not what step %d solved (largest difference %g)' % (what, j, key, j, np.abs(np.asarray(v[j], float).reshape(-1) - full[j][key]).max() if v[j].size == full[j][key].size else np.nan)); return
        out.log([np.round(v, 3).tolist() for v in L.rows[-1].values()] if L.rows else 0)
        out.stats['steps'] += nok; out.sim_time = nok * (o['c']['tstep'] if o['kind'] == 'lqr' else o['s']['tstep'])
        out.nontrivial = nok >= 2 and nother >= 1; out.summary = '%s: %d steps, %d rows at the end' % (o['kind'], nok, len(L.rows))

    def solved(self, L, c):
        """problem and solution of the step that was just made, as the object shows them"""
        m = obj(L); d = {'opt_p_num': flat(m.opt_p_num)}
        if c['full']: d['_opt_x_num'] = flat(m.opt_x_num_unscaled); d['_opt_aux_num'] = flat(m.opt_aux_num)
        if c['mults']: d['_lam_g_num'] = flat(m.lam_g_num)
        for q in c.get('stats') or ('success', 't_wall_total'): d[q] = np.array([float(m.solver_stats[q])])
        return d

# ------------------------------------------------------------------ C08
class C08(C06):
    pid = 'C08'
    kinds = ('sim', 'sim', 'mpc', 'mpc', 'mhe', 'mhe', 'lqr')
    rule = 'at least two steps succeeded and a failed step, reset or change of time happened; distinct if call times, values and outcomes differ'
    def gen(self, rng, idx, tier):
        case = C06.gen(self, rng, idx, tier); o = case['o']
        if o['kind'] != 'lqr':
            if not o['s']['nt'] and rng.chance(0.7): o['s']['nt'] = 1
            case['vary'] = rng.chance(0.6)
        return case
    def run(self, case, out):
        o = case['o']; k = o['kind']; L = build(self.dm, o, out, vary=case.get('vary', False)) if k != 'lqr' else build(self.dm, o, out)
        pid = self.pid; L.init(**case['init']); nok = nother = 0; seen = []
        def obs(proxy, kw, r, stats):
            if 'p' in kw: seen.append(('S' if 'lbx' in kw else '', kw['p'], r))
        for i, op in enumerate(case['ops']):
            f = op.get('fault'); what = '%s op %d %s%s' % (k, i, op['op'], (' fault %s' % f['k']) if f else '')
            t = L.t; del seen[:]; load.Faults.observer = obs
            try: res, exp = do(L, op)
            finally: load.Faults.observer = None
            if not L.expect_ok(res, f, pid, what): return
            if not close(flat(obj(L).t0), [L.t], 1e-9): out.violation(pid, 'time', '%s: time is %s, expected %g' % (what, flat(obj(L).t0), L.t)); return
            if op['op'] != 'step': nother += 1; continue
            for kind, tt in (L.cb.calls if k != 'lqr' else []):
                if abs(tt - t) > 1e-9 * (1 + abs(t)): out.violation(pid, 'callback-time', '%s: the user function for %s was called with time %r, the step starts at %r' % (what, {'tvp': 'time-varying parameters', 'p': 'parameters', 'y': 'measurements'}[kind], tt, t)); return
            if res[0] == 'err': nother += 1; continue
            nok += 1; out.log(round(t, 6), [c[0] for c in L.cb.calls] if k != 'lqr' else 0)
            if not close(np.asarray(obj(L).data['_time'])[-1], [t], 1e-9): out.violation(pid, 'time', '%s: recorded time %s, the step started at %g' % (what, np.asarray(obj(L).data['_time'])[-1], t)); return
            if k == 'sim':
                e = exp[0]
                tol = 1e-6 if o['s']['type'] == 'discrete' else 1e-5
                if not close(arr(L.sim.x0), e, tol) or not close(arr(res[1]), exp[2], tol): out.violation(pid, 'values', '%s at t=%g: state %s, measurement %s; with the parameters returned for this step they are %s, %s' % (what, t, sh(arr(L.sim.x0)), sh(arr(res[1])), sh(e), sh(exp[2]))); return
                L.x = arr(L.sim.x0).copy()
            elif k in ('mpc', 'mhe') and not self.values(L, k, o, seen, what, t, out): return
        out.stats['steps'] += nok; out.sim_time = nok * (o['c']['tstep'] if k == 'lqr' else o['s']['tstep'])
        out.nontrivial = nok >= 2 and nother >= 1; out.summary = '%s: %d steps' % (k, nok)
    def values(self, L, k, o, seen, what, t, out):
        s, c, ob = o['s'], o['c'], obj(L)
        calls = [(v, r) for n, v, r in seen if n == 'S']; pvs = [v for v, r in calls]
        if not pvs: out.violation(self.pid, 'values', '%s: no solver call in a successful step' % what); return False
        import casadi
        pv = casadi.DM(getattr(pvs[-1], 'cat', pvs[-1])); P = ob.opt_p(pv)
        if k == 'mpc': x, T, PP, _ = L.cur
        else: prior, pprev, PP, T, win, _ = L.cur
        n = c['N'] + 1 if k == 'mpc' else c['N']
        if s['nt']:
            for j in range(n):
                got = flat(P['_tvp', j])
                if not close(got, T[j], 1e-9): out.violation(self.pid, 'values', '%s at t=%g: stage %d of the problem uses the time-varying parameters %s, the user function returned %s for it' % (what, t, j, got, T[j])); return False
        if k == 'mpc':
            for q in range(c['ncomb']):
                for i in range(s['np']):
                    got = float(P[('_p', q) + mods.el(s, '_p', i)])
                    if abs(got - PP[q][i]) > 1e-9 * (1 + abs(PP[q][i])): out.violation(self.pid, 'values', '%s at t=%g: scenario %d uses the parameter p%d = %.9g, the user function returned %.9g' % (what, t, q, i, got, PP[q][i])); return False
        else:
            for i, v in zip([i for i in range(s['np']) if i not in c['pe']], PP):
                got = float(P[('_p_set',) + mods.el(s, '_p', i)])
                if abs(got - v) > 1e-9 * (1 + abs(v)): out.violation(self.pid, 'values', '%s at t=%g: the problem uses the parameter p%d = %.9g, the user function returned %.9g' % (what, t, i, got, v)); return False
            for j in range(n):
                got = flat(P['_y_meas', j])
                if not close(got, win[j], 1e-9): out.violation(self.pid, 'values', '%s at t=%g: stage %d of the problem uses the measurement %s, that of this stage is %s' % (what, t, j, sh(got), sh(win[j]))); return False
        # and the problem means by them what was configured: cost and equations at the returned point
        R = L.ref; par = R.params(x, L.uprev, T, PP) if k == 'mpc' else R.params(prior, pprev, PP, T, win); v = L.plan()
        if not np.all(np.isfinite(v)) or (L.last.fired and L.last.f['k'] == 'fail'): return True
        res, f = R.gfun(v, par); f = float(f); fd = float(calls[-1][1]['f']); res = np.array(res).reshape(-1)
        if 'x' in calls[-1][1] and np.isfinite(fd) and abs(f - fd) > 1e-7 * (1 + abs(f) + abs(fd)): out.violation(self.pid, 'cost', '%s at t=%g: the cost of the solution is %.9g; with the values of each stage it is %.9g' % (what, t, fd, f)); return False
        out.stats['costs-compared'] += 1
        if ob.solver_stats['success']:
            i = int(np.argmax(np.maximum(R.glb - res, res - R.gub)))
            if max(R.glb[i] - res[i], res[i] - R.gub[i]) > 1e-5 * (1 + np.abs(v).max()): out.violation(self.pid, 'equations', '%s at t=%g: with the values of each stage, "%s" is violated by %.3g' % (what, t, R.gname[i], max(R.glb[i] - res[i], res[i] - R.gub[i]))); return False
        return True

# ------------------------------------------------------------------ C09
def save(L):
    ob = obj(L); d = {k: flat(getattr(ob, k)).copy() for k in ('x0', 'u0', 't0')}
    if not isinstance(L, LqrLoop): d['z0'] = flat(ob.z0).copy()
    if isinstance(L, MheLoop): d['p_est0'] = flat(ob.p_est0).copy()
    return d
def restore(L, d):
    """what a user does after a restart: a new object, the last values, an initial guess"""
    ob = obj(L)
    for k, v in d.items():
        if k != 't0': 
            if v.size: setattr(ob, k, v.reshape(-1, 1))
    ob.t0 = d['t0'].copy()
    if hasattr(ob, 'set_initial_guess'): ob.set_initial_guess()
    L.t = float(d['t0'][0]); L.u = d['u0'].reshape(-1, 1); L.x = d['x0'].reshape(-1, 1)
    if 'p_est0' in d: L.p = d['p_est0'].copy()
    if isinstance(L, MheLoop): L.prior = d['x0'].copy()

class C09(AnyCheck):
    pid = 'C09'
    runs = {'quick': 900, 'thorough': 40000}
    rule = 'at least one step succeeded before and after the restart or reset; distinct if results and outcomes differ'
    def gen(self, rng, idx, tier):
        kind = rng.pick(['sim', 'mpc', 'mpc', 'mhe', 'lqr', 'loop', 'loop'])
        how = rng.pick(['restart', 'restart', 'reset'])
        if kind == 'loop':
            o = gen_any(rng, ('mpc',)); how = 'restart'; o['c']['cons'] = [q for q in o['c']['cons'] if q['soft']]
        else: o = gen_any(rng, (kind,))
        if kind == 'mhe' and how == 'restart': o['c']['N'] = 1
        ops = []
        for _ in range(rng.randint(3, 8)):
            if kind == 'lqr' and rng.chance(0.15): ops.append({'op': 'set', 'xss': vec(rng, o['c']['nx']), 'uss': vec(rng, o['c']['nu'])}); continue
            p = gen_step(rng, o)
            if how == 'reset' and rng.chance(0.15): p['fault'] = gen_fault(rng, o)
            ops.append(p)
        k = sorted(rng.sample(range(0, len(ops)), rng.pick([1, 1, min(2, len(ops))])))
        return dict(o=o, kind=kind, how=how, init=gen_init(rng, o), init2=gen_init(rng, o), ops=ops, kills=[[i, rng.pick([0, rng.randint(1, 60), rng.randint(1, 250)])] for i in k],
                    t2=rng.pick([None, None, 0, 3, 2.5, 7.3]), t2how=rng.pick(['num', 'np', 'dm', 'np2']))
    def twin(self, o, out, kind):
        if kind != 'loop': return build(self.dm, o, out)
        mpc = build(self.dm, o, out); sim = SimLoop(self.dm, o['s'], o['sig'], out, False, o['mode'], {})
        return mpc, sim
    def run(self, case, out):
        (self.run_reset if case['how'] == 'reset' else self.run_loop if case['kind'] == 'loop' else self.run_restart)(case, out)
    def tol(self, o): return 1e-9 if o['kind'] == 'lqr' else (1e-6 if o['s']['type'] == 'discrete' else 1e-5) if o['kind'] == 'sim' else 2e-4
    def compare(self, out, what, A, B, ra, rb, tol, more=()):
        a, b = result(A, ra), result(B, rb)
        d = diff({'result': b}, {'result': a}, tol)
        if not d:
            sa, sb = vars_of(A.snap()), vars_of(B.snap()); sa = {k: v for k, v in sa.items() if not k.startswith('data.')}; sb = {k: v for k, v in sb.items() if not k.startswith('data.')}
            d = diff(sb, sa, tol)
        if not d:
            da, db = obj(A).data.export(), obj(B).data.export()
            for f in ('_x', '_u', '_time', '_p', '_tvp', '_y') + (('_z',) if isinstance(A, SimLoop) else ()) + more:
                x, y = np.asarray(da[f], float), np.asarray(db[f], float)
                if x.shape[0] != (len(A.rows) if x.shape[0] else 0) or bool(x.shape[0]) != bool(y.shape[0]): d = 'records of %s have %d and %d rows' % (f, x.shape[0], y.shape[0]); break
                if x.shape[0] and not close(y[-1], x[-1], tol): d = 'record of %s is %s instead of %s' % (f, sh(y[-1]), sh(x[-1])); break
        if d: out.violation(self.pid, 'differs', what + d); return False
        return True
    def run_restart(self, case, out):
        o = case['o']; A, B = build(self.dm, o, out), build(self.dm, o, out)
        if o['kind'] != 'lqr': A.init(**case['init']); B.init(**case['init'])
        kills = dict(map(tuple, case['kills'])); tol = self.tol(o); nb = na = 0; saved = save(B)
        for i, op in enumerate(case['ops']):
            what = '%s op %d %s' % (o['kind'], i, op['op'])
            ra, _ = do(A, op)
            if not A.expect_ok(ra, None, self.pid, what): return
            if i in kills:
                n = kills[i]; rb = None
                if n and op['op'] == 'step': rb, _ = do(B, dict(op, fault={'k': 'int', 'n': n}))
                if not (rb and rb[0] == 'ok'):
                    xss, uss = getattr(B, 'xss', None), getattr(B, 'uss', None)
                    B = build(self.dm, o, out); restore(B, saved); out.faults['kill'] += 1; nb += 1
                    if o['kind'] == 'lqr': B.lqr.set_setpoint(xss=xss.copy(), uss=uss.copy()); B.xss, B.uss = xss, uss
                    rb, _ = do(B, op)
            else: rb, _ = do(B, op)
            if not B.expect_ok(rb, None, self.pid, what + ' after a restart'): return
            if op['op'] != 'step': continue
            if not (good(A) and good(B)): out.stats['unsolved'] += 1; return
            saved = save(B)
            if not self.compare(out, what + ': after a restart ', A, B, ra, rb, tol): return
            na += 1 if nb else 0; out.log(np.round(result(A, ra), 4).tolist())
            out.stats['steps'] += 1; out.sim_time += o['c']['tstep'] if o['kind'] == 'lqr' else o['s']['tstep']
        out.nontrivial = nb >= 1 and na >= 1; out.summary = '%s, %d restarts' % (o['kind'], nb)
    def run_loop(self, case, out):
        """controller and simulator in a closed loop, killed anywhere in an iteration; what survives is the state each had after its last completed step"""
        o = case['o']; am, as_ = self.twin(o, out, 'loop'); bm, bs = self.twin(o, out, 'loop'); x = case['init']['x']
        for m, s in ((am, as_), (bm, bs)): m.init(x, case['init'].get('u')); s.init(x)
        kills = dict(map(tuple, case['kills'])); nb = na = 0; sm, ss = save(bm), save(bs)
        for i, op in enumerate(case['ops']):
            what = 'loop iteration %d' % i
            ra, _ = am.step_op({'op': 'step', 'x': [float(v) for v in flat(as_.sim.x0)]})
            if not am.expect_ok(ra, None, self.pid, what): return
            if not good(am): out.stats['unsolved'] += 1; return
            ua = flat(ra[1]); rs, _ = as_.step_op({'op': 'step', 'u': [float(v) for v in ua]})
            if not as_.expect_ok(rs, None, self.pid, what): return
            fault = {'k': 'int', 'n': max(1, kills[i])} if i in kills else None
            where = 'sim' if (fault and kills[i] % 2) else 'mpc'
            opb = {'op': 'step', 'x': [float(v) for v in flat(bs.sim.x0)]}
            if fault and where == 'mpc': opb['fault'] = fault
            rb, _ = bm.step_op(opb)
            if rb[0] == 'err' and opb.get('fault'):
                bm, bs = self.twin(o, out, 'loop'); restore(bm, sm); restore(bs, ss); out.faults['kill'] += 1; nb += 1
                rb, _ = bm.step_op({'op': 'step', 'x': [float(v) for v in flat(bs.sim.x0)]})
            if not bm.expect_ok(rb, None, self.pid, what + ' after a restart'): return
            if not good(bm): out.stats['unsolved'] += 1; return
            sm = save(bm); ub = flat(rb[1])
            ops = {'op': 'step', 'u': [float(v) for v in ub]}
            if fault and where == 'sim': ops['fault'] = fault
            rq, _ = bs.step_op(ops)
            if rq[0] == 'err' and ops.get('fault'):
                bm, bs = self.twin(o, out, 'loop'); restore(bm, sm); restore(bs, ss); out.faults['kill'] += 1; nb += 1
                rq, _ = bs.step_op({'op': 'step', 'u': [float(v) for v in flat(bm.mpc.u0)]})
            if not bs.expect_ok(rq, None, self.pid, what + ' after a restart'): return
            ss = save(bs)
            d = diff({'input': ub, 'state': flat(bs.sim.x0), 'time': flat(bs.sim.t0), 'controller time': flat(bm.mpc.t0)}, {'input': ua, 'state': flat(as_.sim.x0), 'time': flat(as_.sim.t0), 'controller time': flat(am.mpc.t0)}, 1e-3)
            if d: out.violation(self.pid, 'differs', '%s: after a restart %s' % (what, d)); return
            na += 1 if nb else 0; out.log(np.round(ua, 4).tolist()); out.stats['steps'] += 1; out.sim_time += o['s']['tstep']
        out.nontrivial = nb >= 1 and na >= 1; out.summary = 'closed loop, %d restarts' % nb
    def run_reset(self, case, out):
        o = case['o']; A = build(self.dm, o, out); ops = case['ops']; cut = max(1, len(ops) // 2); tol = self.tol(o); n1 = n2 = 0
        if o['kind'] != 'lqr': A.init(**case['init'])
        for i, op in enumerate(ops[:cut]):
            res, _ = do(A, op)
            if not A.expect_ok(res, op.get('fault'), self.pid, '%s op %d' % (o['kind'], i)): return
            n1 += res[0] == 'ok'
        B = build(self.dm, o, out)
        obj(A).reset_history()
        d = {k: v.shape[0] for k, v in obj(A).data.export().items() if v.shape[0]}
        if d: out.violation(self.pid, 'not-empty', '%s: after reset_history records remain: %s' % (o['kind'], d)); return
        if not close(flat(obj(A).t0), [0.0], 1e-12): out.violation(self.pid, 'not-empty', '%s: after reset_history the time is %s' % (o['kind'], flat(obj(A).t0))); return
        A.t = 0.0; A.rows = []
        if hasattr(A, 'ylist'): A.ylist = []
        init = dict(case['init2'])
        if o['kind'] == 'lqr':
            init = {'u0': np.array(case['ops'][0].get('u', [0.1] * o['c']['nu']), float).reshape(-1, 1)}
            for L in (A, B): L.lqr.u0 = init['u0'].copy(); L.u = init['u0'].copy()
            B.lqr.set_setpoint(xss=A.xss.copy(), uss=A.uss.copy()); B.xss, B.uss = A.xss, A.uss
        else:
            init.setdefault('u', [0.0] * o['s']['nu']) if o['kind'] != 'sim' else None
            init.setdefault('z', [0.0] * o['s']['nz']) if o['s']['nz'] else None
            if o['kind'] == 'sim':
                u = np.zeros((o['s']['nu'], 1))
                for L in (A, B): L.sim.u0 = u.copy(); L.u = u.copy()
            A.init(**init); B.init(**init)
        if case.get('t2') is not None:
            import casadi
            for L in (A, B):
                t2 = case['t2']; L.t = float(t2); obj(L).t0 = {'num': t2, 'np': np.array([t2]), 'dm': casadi.DM(t2), 'np2': np.array([[t2]])}[case['t2how']]
        for i, op in enumerate(ops[cut:]):
            op = {k: v for k, v in op.items() if k != 'fault'}; what = '%s op %d %s' % (o['kind'], cut + i, op['op'])
            ra, _ = do(A, op); rb, _ = do(B, op)
            if not A.expect_ok(ra, None, self.pid, what + ' after a reset') or not B.expect_ok(rb, None, self.pid, what): return
            if op['op'] != 'step': continue
            if not (good(A) and good(B)): out.stats['unsolved'] += 1; return
            if not self.compare(out, what + ': after a reset (second) ', B, A, rb, ra, tol, ('_aux',) if o['kind'] == 'sim' else ()): return
            if not close(flat(obj(A).t0), [A.t], 1e-9): out.violation(self.pid, 'differs', '%s: after a reset and a start at t=%s the time is %s, expected %g' % (what, case.get('t2'), flat(obj(A).t0), A.t)); return
            if len(B.rows) != len(A.rows): raise Harness('rows')
            n2 += 1; out.log(np.round(result(A, ra), 4).tolist()); out.stats['steps'] += 1; out.sim_time += o['c']['tstep'] if o['kind'] == 'lqr' else o['s']['tstep']
        out.faults['reset'] += 1
        out.nontrivial = n1 >= 1 and n2 >= 1; out.summary = '%s, reset after %d steps' % (o['kind'], n1)

# ------------------------------------------------------------------ C11
class C11(AnyCheck):
    pid = 'C11'
    kinds = ('mpc', 'mhe')
    runs = {'quick': 1000, 'thorough': 40000}
    fault_p = (0.3, 0.5, 0.7)
    rule = 'solver failures and successes both occurred; distinct if outcomes differ'
    def gen(self, rng, idx, tier):
        case = AnyCheck.gen(self, rng, idx, tier)
        case['o']['c']['stats'] = rng.pick([None, ['success', 't_wall_total'], ['success', 'iter_count'], ['iter_count', 'success', 't_wall_total']])
        for p in case['ops']:
            if p.get('fault') and p['fault']['k'] in ('int', 'tvp', 'p') and rng.chance(0.6):
                p['fault'] = rng.pick([{'k': 'raise'}, {'k': 'fail', 'g': rng.randint(0, 99), 'amp': 0.2, 'st': rng.pick(['Maximum_Iterations_Exceeded', 'Infeasible_Problem_Detected', 'Invalid_Number_Detected', 'Solved_To_Acceptable_Level'])}])
            if rng.chance(0.1) and case['o']['kind'] == 'mpc': p['x'] = vec(rng, case['o']['s']['nx'], 30.0)      # far outside: infeasible or hard problems
        return case
    def extra_op(self, rng, o):
        if rng.chance(0.07): return {'op': 'reset', 'init': gen_init(rng, o)}
        return None
    def run(self, case, out):
        o = case['o']; L = build(self.dm, o, out); L.init(**case['init']); pid = self.pid; seen = []; ns = nu = 0; rows = []
        def obs(proxy, kw, r, stats):
            if 'lbx' in kw: seen.append(dict(stats))
        for i, op in enumerate(case['ops']):
            f = op.get('fault'); what = '%s op %d %s%s' % (o['kind'], i, op['op'], (' fault %s' % f['k']) if f else ''); del seen[:]
            load.Faults.observer = obs
            try: res, _ = do(L, op)
            finally: load.Faults.observer = None
            if not L.expect_ok(res, f, pid, what): return
            data = obj(L).data
            if op['op'] == 'reset': rows = []
            elif res[0] == 'ok':
                if f and f['k'] == 'raise' and L.last.fired and not seen: out.violation(pid, 'raise-swallowed', '%s: the solver raised, the step returned %s as if nothing had happened' % (what, sh(result(L, res)))); return
                if not seen: out.violation(pid, 'no-solve', '%s: no solver call in a successful step' % what); return
                st = seen[-1]; got = obj(L).solver_stats; rows.append(st); out.log(st['success'], st['return_status'])
                ns += st['success']; nu += not st['success']
                for key in ('success', 'return_status', 'iter_count'):
                    if got.get(key) != st.get(key): out.violation(pid, 'stats', '%s: solver_stats[%r] is %r, the solver reported %r for this step' % (what, key, got.get(key), st.get(key))); return
            for key in ('success', 'iter_count', 't_wall_total'):
                if key not in data.data_fields: continue
                v = np.asarray(getattr(data, key), float).reshape(-1)
                if len(v) != len(rows): out.violation(pid, 'recorded', '%s: %d entries of %s after %d recorded steps' % (what, len(v), key, len(rows))); return
                for j, st in enumerate(rows):
                    if abs(v[j] - float(st[key])) > 1e-12: out.violation(pid, 'recorded', '%s: recorded %s of step %d is %r, the solver reported %r' % (what, key, j, v[j], st[key])); return
            if 'success' not in data.data_fields and (not case['o']['c'].get('stats') or 'success' in case['o']['c']['stats']): out.violation(pid, 'recorded', 'the success flag is not recorded'); return
        out.stats['steps'] += ns + nu; out.stats['unsuccessful'] += nu; out.sim_time = (ns + nu) * o['s']['tstep']
        out.nontrivial = ns >= 1 and (nu >= 1 or sum(out.faults.values()) >= 1); out.summary = '%s: %d successful, %d unsuccessful solves' % (o['kind'], ns, nu)

# ------------------------------------------------------------------ C12
def all_bounds(L):
    """read back through the public interface"""
    s = L.s; ob = obj(L); d = {}
    for side, bt in ((0, 'lower'), (1, 'upper')):
        d['x', side] = [float(np.asarray(ob.bounds[(bt, '_x') + xidx(s, i)]).reshape(-1)[0]) for i in range(s['nx'])]
        for v in 'uz': d[v, side] = [float(np.asarray(ob.bounds[(bt, '_' + v) + mods.el(s, '_' + v, i)]).reshape(-1)[0]) for i in range(s['n' + v])]
        if isinstance(L, MpcLoop): d['xt', side] = [float(np.asarray(ob.terminal_bounds[(bt,) + xidx(s, i)]).reshape(-1)[0]) for i in range(s['nx'])]
        else: d['p', side] = [float(np.asarray(ob.bounds[(bt, '_p_est') + mods.el(s, '_p', i)]).reshape(-1)[0]) for i in L.c['pe']]
    return d
REJECT = ['name', 'type', 'kind', 'shape', 'short', 'value', 'pindex']

class C12(ClCheck):
    pid = 'C12'
    runs = {'quick': 1300, 'thorough': 60000}
    rule = 'at least two changes of bounds and two steps; distinct if bounds and outcomes differ'
    def gen(self, rng, idx, tier):
        o = gen_any(rng, ('mpc', 'mpc', 'mhe')); s, c = o['s'], o['c']; ops = []
        for _ in range(rng.randint(4, 12)):
            r = rng.random()
            if r < 0.4:
                if o['kind'] == 'mpc': b = gen_bound_op(rng, s, c)
                else:
                    v = rng.pick(['x', 'x', 'u' if s['nu'] else 'x'] + (['p'] if c['pe'] else []) + (['z'] if s['nz'] else []))
                    b = {'op': 'bound', 'v': v, 'i': rng.randint(0, {'x': s['nx'], 'p': len(c['pe']), 'z': s['nz'], 'u': s['nu']}[v] - 1), 'lo': -rng.fl(1.5, 5, 2), 'hi': rng.fl(1.5, 5, 2)}
                q = rng.random()
                if q < 0.2: b['lo'] = None
                elif q < 0.4: b['hi'] = None
                elif q < 0.5: b['lo'] = -float('inf')
                elif q < 0.6: b['hi'] = float('inf')
                if s['vec'] and s['nx'] >= 2 and b['v'] in ('x', 'xt') and b['i'] < 2 and rng.chance(0.4): b['whole'] = [rng.fl(1.5, 5, 2) for _ in range(2)]; b['i'] = 0
                ops.append(b)
            elif r < 0.55: ops.append({'op': 'reject', 'how': rng.pick(REJECT), 'side': rng.pick(['lower', 'upper']), 'v': rng.pick(['_x', '_u', 'xt', '_z'])})
            elif r < 0.6: ops.append({'op': 'reset', 'init': gen_init(rng, o)})
            else:
                p = gen_step(rng, o)
                if rng.chance(0.25): p['fault'] = gen_fault(rng, o)
                ops.append(p)
        return dict(o=o, init=gen_init(rng, o), ops=ops)
    def set(self, L, op):
        s = L.s; ob = obj(L)
        if op.get('whole'):
            for side, bt, sg in ((0, 'lower', -1), (1, 'upper', 1)):
                if op.get('lo' if side == 0 else 'hi') is None: continue
                a = sg * np.array(op['whole'], float)
                if op['v'] == 'xt': ob.terminal_bounds[bt, 'xv'] = a; L.follow[side] = False
                else: ob.bounds[bt, '_x', 'xv'] = a
                L.B[op['v']][side][0:2] = [float(q) for q in a]
                if op['v'] == 'x' and getattr(L, 'follow', [0, 0])[side]: L.B['xt'][side] = list(L.B['x'][side])
                a[:] = 99.0
        elif isinstance(L, MpcLoop): set_bound(L, op)
        else: set_mhe_bound(L, op)
    def reject(self, L, op):
        ob = obj(L); how, side, v = op['how'], op['side'], op['v']; s = L.s
        tb = v == 'xt' and isinstance(L, MpcLoop)
        if v == 'xt' and not tb: v = '_x'
        if v == '_z' and not s['nz']: v = '_u'
        if v == '_u' and not s['nu']: v = '_x'
        good_ = mods.el(s, {'xt': '_x'}.get(v, v), 0)[0]
        b = ob.terminal_bounds if tb else ob.bounds
        idx = (side, good_) if tb else (side, v, good_); val = 1.234
        if how == 'name': idx = idx[:-1] + ('nonexistent',)
        elif how == 'type': idx = ('middle',) + idx[1:]
        elif how == 'kind': idx = (side, '_q', good_) if not tb else (side, '_x', good_)
        elif how == 'shape': val = np.array([1.0, 2.0, 3.0, 4.0, 5.0])
        elif how == 'short': idx = side
        elif how == 'value': val = 'one'
        elif how == 'pindex': idx = idx + (7,)
        try: b[idx] = val
        except Exception: return True
        return False
    def run(self, case, out):
        o = case['o']; L = build(self.dm, o, out); L.init(**case['init']); pid = self.pid; nb = ns = 0; seen = []
        def obs(proxy, kw, r, stats):
            if 'lbx' in kw: seen.append((kw.get('lbx'), kw.get('ubx')))
        for i, op in enumerate(case['ops']):
            f = op.get('fault'); what = '%s op %d %s%s' % (o['kind'], i, op['op'], (' %s' % op.get('how') if op['op'] == 'reject' else ' %s' % op.get('v', '')))
            if op['op'] == 'bound':
                nb += 1
                try: self.set(L, op)
                except Exception as e: out.violation(pid, 'spurious-error', '%s failed: %r' % (what, e)); return
            elif op['op'] == 'reject':
                out.faults['rejected bound'] += 1
                if not self.reject(L, op): out.violation(pid, 'accepted', '%s: an invalid bound (%s) was accepted' % (what, op)); return
            else:
                del seen[:]; load.Faults.observer = obs
                try: res, _ = do(L, op)
                finally: load.Faults.observer = None
                if not L.expect_ok(res, f, pid, what): return
                if op['op'] == 'step' and res[0] == 'ok':
                    ns += 1; out.log(result(L, res).shape)
                    if not seen: out.violation(pid, 'no-solve', what); return
                    if not self.applied(L, seen[-1], what, out): return
                    if good(L) and not (f and f['k'] == 'fail') and not L.check_plan(pid, what, opt=False): return
            rb = all_bounds(L)
            for (v, side), vals in rb.items():
                e = [float(q) for q in L.B[v][side]] if o['s'].get('n' + v[0], 1) else []
                if len(vals) != len(e) or any(a != b and abs(a - b) > 1e-12 for a, b in zip(vals, e)): out.violation(pid, 'read-back', '%s: %s bounds of %s read back as %s, set were %s' % (what, ('lower', 'upper')[side], v, vals, e)); return
            out.log(sorted((k, v) for k, v in rb.items()))
        out.stats['steps'] += ns; out.stats['changes'] += nb; out.sim_time = ns * o['s']['tstep']
        out.nontrivial = nb >= 2 and ns >= 2; out.summary = '%s: %d changes, %d steps' % (o['kind'], nb, ns)
    def applied(self, L, lu, what, out):
        import casadi
        R = L.ref; ob = obj(L); lb, ub = R.bounds(L.B)
        for side, (given, e) in enumerate(zip(lu, (lb, ub))):
            if given is None: out.violation(self.pid, 'not-applied', '%s: the solver got no bounds' % what); return False
            st = ob.opt_x(casadi.DM(getattr(given, 'cat', given))); old = ob.opt_x_num
            v = L.values(st)
            bad = np.where(~((v == e) | (np.abs(v - e) <= 1e-9 * (1 + np.abs(e)))))[0]
            if len(bad): i = bad[0]; out.violation(self.pid, 'not-applied', '%s: %s bound of %s in the solver call is %g, set is %g' % (what, ('lower', 'upper')[side], R.name(i), v[i], e[i])); return False
        return True

def make(pid): return globals()[pid]()
