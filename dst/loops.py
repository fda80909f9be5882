"""Closed-loop pieces under the simulator's control: each wraps one do-mpc object, performs operations on it (with faults), and keeps an
independent account of what it should have done.  Only public attributes of do-mpc are used."""
import itertools, warnings
import numpy as np
from . import load, mods, sched
from .runner import Harness

class Boom(Exception): pass
class Boom2(BaseException): pass

def arr(v):
    while not hasattr(v, 'full') and hasattr(v, 'cat'): v = v.cat
    return np.asarray(v.full() if hasattr(v, 'full') else v, float)
def flat(v): return arr(v).reshape(-1)

class Callbacks:
    """user functions for parameters; records the times they are called with; may raise when armed"""
    def __init__(self): self.calls = []; self.armed = {}; self.count = 0
    def hit(self, kind, t):
        tt = float(np.asarray(t).reshape(-1)[0]); self.calls.append((kind, tt)); self.count += 1
        n = self.armed.get(kind)
        if n is not None:
            if n <= 1: del self.armed[kind]; raise Boom('user function %s' % kind)
            self.armed[kind] = n - 1
        return tt

class Inject:
    """faults of one operation; `fired` says whether the fault happened"""
    def __init__(self, fault, cb, out):
        self.f = fault; self.cb = cb; self.fired = False; self.out = out; self.kind = None
    def __enter__(self):
        f = self.f
        if not f: return self
        k = f['k']
        if k in ('tvp', 'p', 'y'): self.cb.armed[k] = 1
        elif k in ('raise', 'fail'):
            left = [f.get('n', 1)]
            def hook(proxy, a, kw):
                if self.fired: return None
                left[0] -= 1
                if left[0] > 0: return None
                self.fired = True
                if k == 'raise': return ('raise', RuntimeError('injected: solver process failed'))
                return ('fail', {'garbage': f.get('g', 1), 'amp': f.get('amp', 1.0), 'status': f.get('st', 'Maximum_Iterations_Exceeded')})
            load.Faults.hook = hook
        elif k == 'int':
            left = [f['n']]
            def shook(site):
                if self.fired: return
                left[0] -= 1
                if left[0] <= 0:
                    self.fired = True; self.out.cover.add(site); raise KeyboardInterrupt()
            sched.HOOK = shook
        return self
    def __exit__(self, et, ev, tb):
        sched.HOOK = None; load.Faults.hook = None
        f = self.f
        if f:
            if f['k'] in ('tvp', 'p', 'y'):
                if f['k'] in self.cb.armed: del self.cb.armed[f['k']]
                else: self.fired = True
            if self.fired: self.out.faults[f['k']] += 1
        return False

def spoil(*args):
    """the caller re-uses its arrays after the call"""
    import casadi
    for a in args:
        if isinstance(a, (np.ndarray, casadi.DM)): a[:] = 77.0
        elif hasattr(a, 'master'): a.master = casadi.DM(a.cat) * 0 + 77.0

def bad_value(kind, n):
    """arguments that must be rejected"""
    import casadi
    if kind == 'list': return [0.0] * n
    if kind == 'none-str': return 'x0'
    if kind == 'long': return np.zeros((n + 1, 1))
    if kind == 'short': return np.zeros((n - 1, 1)) if n > 1 else np.zeros((n + 2, 1))
    if kind == 'dm': return casadi.DM.zeros(n + 1, 1)
    return object()
BADS = ['list', 'none-str', 'long', 'short', 'dm', 'obj']

class Loop:
    """ops: dicts with 'op'; do(op) -> ('ok', value) | ('err', exception)"""
    last = None
    def call(self, fn, fault):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            inj = Inject(fault, self.cb, self.out)
            try:
                with inj: r = fn()
            except (Exception, KeyboardInterrupt) as e:
                from .runner import Harness as H
                if isinstance(e, H): raise
                self.last = inj
                return ('err', e)
        self.last = inj
        return ('ok', r)
    def expect_ok(self, res, fault, pid, what):
        """a call without any fault must not raise"""
        if res[0] == 'err' and not (fault and (self.last.fired or fault['k'].startswith('bad'))):
            import traceback
            tb = ''.join(traceback.format_exception(res[1])[-4:])
            self.out.violation(pid, 'spurious-error', '%s failed although nothing was wrong: %s' % (what, tb[-800:]))
            return False
        return True

# ------------------------------------------------------------------ simulator
class SimLoop(Loop):
    def __init__(self, dm, s, sig, out, meas_u=False, mode='fresh', settings=None, model=None, vary=False):
        self.dm = dm; self.s = s; self.sig = sig; self.out = out; self.mode = mode; self.cb = Callbacks(); self.meas_u = meas_u; self.vary = vary
        self.model = model or mods.build_model(dm, s, meas_u=meas_u); self.given = {}
        self.settings = settings or {}
        self.new()
    def new(self):
        s = self.s
        sim = self.sim = self.dm.simulator.Simulator(self.model)
        sim.settings.t_step = s['tstep']
        if s['type'] == 'continuous':
            if s['nz']: sim.set_param(integration_tool='idas')
            for k, v in self.settings.items(): sim.settings.integration_opts.update(v) if k == 'integration_opts' and self.settings.get('inplace') else sim.set_param(**{k: v}) if k != 'inplace' else None
        tpl = sim.get_tvp_template(); ptpl = sim.get_p_template()
        def tvp_fun(t):
            tt = self.cb.hit('tvp', t)
            o = tpl if self.mode == 'same' else sim.get_tvp_template()
            v = [x + (0.01 * self.cb.count if self.vary else 0) for x in mods.tvp_at(s, self.sig, tt)]; self.given['tvp'] = v
            for i, q in enumerate(v): o[mods.el(s, '_tvp', i)] = q
            return o
        def p_fun(t):
            tt = self.cb.hit('p', t)
            o = ptpl if self.mode == 'same' else sim.get_p_template()
            vals = [x + (0.01 * self.cb.count if self.vary else 0) for x in mods.p_at(s, self.sig, tt)]; self.given['p'] = vals
            for i, v in enumerate(vals): o[mods.el(s, '_p', i)] = v
            return o
        if s['nt'] or self.mode == 'same': sim.set_tvp_fun(tvp_fun)
        if s['np'] or self.mode == 'same': sim.set_p_fun(p_fun)
        sim.setup()
        self.rows = []
        self.k = 0; self.t = 0.0; self.x = np.zeros((s['nx'], 1)); self.z = np.zeros((s['nz'], 1)); self.u = np.zeros((s['nu'], 1)); self.first = True; self.ended = None
    def init(self, x, z=None):
        self.sim.x0 = np.array(x, float).reshape(-1, 1); self.x = np.array(x, float).reshape(-1, 1)
        if self.s['nz']:
            z = mods.solve_z(self.s, x, self.u.reshape(-1), mods.tvp_at(self.s, self.sig, self.t), []) if z is None else z
            self.sim.z0 = np.array(z, float).reshape(-1, 1); self.z = np.array(z, float).reshape(-1, 1)
            self.sim.set_initial_guess()
    def snap(self):
        d = {'x0': flat(self.sim.x0), 'u0': flat(self.sim.u0), 'z0': flat(self.sim.z0), 't0': flat(self.sim.t0)}
        for k, v in self.sim.data.export().items(): d['data.' + k] = np.array(v, float)
        return d
    def arg(self, v, how, struct):
        import casadi
        v = np.array(v, float).reshape(-1, 1)
        if how == 'dm': return casadi.DM(v)
        if how == 'struct': return struct(casadi.DM(v))
        return v
    def step_op(self, op):
        """returns (result, expectation) ; expectation = (x, z, y) of the reference"""
        s = self.s; f = op.get('fault'); how = op.get('how', 'np')
        u = self.arg(op['u'], how, self.model._u)
        kw = {}
        if op.get('w') is not None and mods.n_w(s): kw['w0'] = self.arg(op['w'], how, self.model._w)
        if op.get('v') is not None and mods.n_v(s): kw['v0'] = self.arg(op['v'], how, self.model._v)
        if not s['nu'] and self.k % 2: u = None
        if f and f['k'] == 'bad-u': u = bad_value(f['b'], s['nu'])
        if f and f['k'] == 'bad-w': kw['w0'] = bad_value(f['b'], mods.n_w(s))
        if f and f['k'] == 'bad-v': kw['v0'] = bad_value(f['b'], mods.n_v(s))
        self.cb.calls = []
        self.given.clear()
        res = self.call(lambda: self.sim.make_step(u, **kw), f)
        if op.get('mut'): spoil(u, *kw.values())
        t, p = mods.tvp_at(s, self.sig, self.t), mods.p_at(s, self.sig, self.t)
        if self.vary: t, p = self.given.get('tvp', t), self.given.get('p', p)
        w = op['w'] if op.get('w') and 'w0' in kw else [0.0] * mods.n_w(s)
        v = op['v'] if op.get('v') and 'v0' in kw else [0.0] * mods.n_v(s)
        if res[0] == 'ok':
            xn, zn = mods.step(s, self.x, op['u'], t, p, w)
            y = mods.ymeas(s, xn, op['u'], zn, t, p, v, self.meas_u)
            self.rows.append(dict(_x=self.x.reshape(-1), _u=np.array(op['u'], float), _tvp=np.array(t), _p=np.array(p), _y=y.reshape(-1), _time=np.array([self.t]),
                                  _aux=mods.auxvals(s, self.x, op['u'], self.sim.data._z[-1], t, p)))
            # (before the first step: with its own inputs, later: as at the end of the step before)
            if s['nz'] and len(self.z): self.rows[-1]['_z'] = np.array(self.z, float).reshape(-1)        # (at the beginning of the step)
            if self.ended: self.rows[-1]['_aux.alt'] = [mods.auxvals(s, self.x, *[q if i != 1 else self.sim.data._z[-1] for i, q in enumerate(self.ended)])]
            self.ended = (op['u'], None, t, p)
            if self.__dict__.get('auxstale'): del self.rows[-1]['_aux']; self.auxstale = False
            self.x, self.z, self.u = xn, zn, np.array(op['u'], float).reshape(-1, 1); self.t = self.t + s['tstep']; self.first = False; self.k += 1
            return res, (xn, zn, y)
        return res, None
    def do(self, op):
        k = op['op']; s = self.s
        if k == 'step': return self.step_op(op)
        if k == 'setx':
            self.x = np.array(op['x'], float).reshape(-1, 1); a = self.arg(op['x'], op.get('how', 'np'), self.model._x); self.sim.x0 = a
            if op.get('mut'): spoil(a)
            self.auxstale = bool(self.rows)      # recorded with the state before the change
            return ('ok', None), None
        if k == 'sett':
            v = op['t']; self.t = float(v)
            self.sim.t0 = np.array([v]) if op.get('how') != 'np' else v
            return ('ok', None), None
        if k == 'reset':
            self.sim.reset_history(); self.rows = []; self.t = 0.0; self.first = True; self.ended = None
            return ('ok', None), None
        if k == 'setz':
            if s['nz']: self.z = np.array(op['z'], float).reshape(-1, 1); self.sim.z0 = self.z.copy(); self.sim.set_initial_guess(); self.auxstale = bool(self.rows)
            return ('ok', None), None
        if k == 'initz':
            if not s['nz']: return ('ok', None), None
            res = self.call(lambda: self.sim.init_algebraic_variables(), None)
            self.auxstale = bool(self.rows)
            if res[0] == 'ok': self.z = mods.solve_z(s, self.x.reshape(-1), self.u.reshape(-1), mods.tvp_at(s, self.sig, self.t), mods.p_at(s, self.sig, self.t))
            return res, None
        raise Harness('op ' + k)

# ------------------------------------------------------------------ MPC
from . import refnlp
QUIET = {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0, 'record_time': True, 'ipopt.tol': 1e-9}

def pcombs(s, c):
    out = []
    for q in itertools.product(*[v for _, v in c['pv']]):
        p = [0.0] * s['np']
        for (i, _), v in zip(c['pv'], q):
            for j, e in zip(i, v) if isinstance(i, list) else [(i, v)]: p[j] = e
        out.append(p)
    return out

def gen_mpc(rng, s, robust=True, cons=True, small=False):
    """configuration of an MPC for model s"""
    nc = rng.pick([0, 0, 1, 2]) if cons else 0
    nr = rng.weighted([(0, 5), (1, 3), (2, 1)]) if (robust and s['np']) else 0
    ncomb = rng.pick([2, 2, 3]) if nr == 1 else (2 if nr == 2 else 1)
    N = rng.pick([2, 3, 4, 5]) if nr < 2 else rng.pick([2, 3])
    if small: N = rng.pick([2, 3])
    N = max(N, nr)
    c = dict(N=N, nr=nr, ncomb=ncomb, open_loop=nr > 0 and rng.chance(0.3), single_slack=rng.chance(0.3), ncchk=rng.chance(0.3), cchk=rng.chance(0.7), deg=rng.pick([1, 2, 2, 3]), ni=rng.pick([1, 1, 2]), coll=rng.pick(['radau', 'radau', 'legendre']),
             Q=[rng.fl(0.5, 3, 2) for _ in range(s['nx'])], Ru=[rng.fl(0.05, 0.6, 2) for _ in range(s['nu'])], Pm=[rng.fl(0.5, 4, 2) for _ in range(s['nx'])],
             xs=[rng.fl(-0.8, 0.8, 2) for _ in range(s['nx'])], ref=rng.pick([0.0, 0.5, 1.0]), lp=rng.pick([0.0, 0.2]), rt=rng.pick(['default', 'default', 'fun', 'zero']),
             R=[rng.fl(0.05, 1.5, 2) for _ in range(s['nu'])], us=[rng.pick([1.0, 1.0, 0.5, 4.0]) for _ in range(s['nu'])], xscale=[rng.pick([1.0, 1.0, 0.4, 5.0]) for _ in range(s['nx'])],
             zs=rng.pick([1.0, 2.0]), cons=[], full=rng.chance(0.5), mults=rng.chance(0.7), uterm=rng.pick(['none', 'own', 'default', 'part']), hd=rng.chance(0.35), pmode=rng.pick(['fun', 'values']) if ncomb > 1 else 'fun')
    if s['np'] and c['pmode'] == 'fun' and rng.chance(0.25): c['pmode'] = 'values'
    if c['pmode'] == 'values':
        # set_uncertainty_values: any subset of the parameters in any order
        ids = [[0, 1]] if mods.pnames(s) == [('pv', 2)] else list(range(s['np'])); rng.shuffle(ids); ids = ids[:rng.pick([1, 2, 2])]; left = {0: 4, 1: 4, 2: 2}[nr]; c['pv'] = []
        for i in ids:
            k = rng.pick([q for q in (1, 2, 2, 3, 4) if q <= left]); left //= k
            c['pv'].append([i, [[rng.fl(-0.5, 0.5, 3) for _ in i] if isinstance(i, list) else rng.fl(-0.5, 0.5, 3) for _ in range(k)]])
        c['ncomb'] = len(pcombs(s, c))
    if c['rt'] == 'zero': c['R'] = [0.0] * s['nu']; c['rt'] = 'default'
    for i in range(nc):
        c['cons'].append(dict(a=vec_(rng, s['nx']), b=vec_(rng, s['nu']), z=rng.pick([0.0, 0.5]), t=rng.pick([0.0, 0.3]), p=rng.pick([0.0, 0.3]), q=rng.pick([0.0, 0.2]),
                              ub=rng.fl(0.1, 1.5, 2), soft=rng.chance(0.75), pen=rng.pick([2.0, 20.0, 100.0]), maxv=rng.pick([float('inf'), 50.0])))
    c['ub'] = [rng.fl(0.4, 2.0, 2) for _ in range(s['nu'])]; c['lb'] = [-rng.fl(0.4, 2.0, 2) for _ in range(s['nu'])]
    c['xub'] = [rng.pick([float('inf'), rng.fl(2.5, 5, 2)]) for _ in range(s['nx'])]; c['xlb'] = [rng.pick([-float('inf'), -rng.fl(2.5, 5, 2)]) for _ in range(s['nx'])]
    c['zub'] = rng.pick([float('inf'), 6.0, 1.5]); c['zlb'] = -c['zub']
    return c
def vec_(rng, n): return [rng.fl(-1, 1, 2) for _ in range(n)]

class MpcLoop(Loop):
    def __init__(self, dm, s, c, sig, out, mode='fresh', model=None, vary=False):
        self.dm = dm; self.s = s; self.c = c; self.sig = sig; self.out = out; self.mode = mode; self.cb = Callbacks(); self.vary = vary
        self.model = model or mods.build_model(dm, s)
        self._ref = None
        self.new()
    @property
    def ref(self):
        if self._ref is None: self._ref = refnlp.MpcRef(self.s, self.c)
        return self._ref
    def new(self):
        s, c, dm = self.s, self.c, self.dm; m = self.model
        mpc = self.mpc = dm.controller.MPC(m)
        st = mpc.settings
        mpc.set_param(n_horizon=c['N'], t_step=s['tstep'], n_robust=c['nr'], open_loop=c['open_loop'], store_full_solution=c['full'], store_lagr_multiplier=c['mults'])
        mpc.set_param(collocation_deg=c['deg'], collocation_type=c['coll'], collocation_ni=c['ni'], cons_check_colloc_points=c['cchk'], nl_cons_single_slack=c['single_slack'], nl_cons_check_colloc_points=c['ncchk'])
        mpc.set_param(nlpsol_opts=dict(QUIET, **c.get('nlpopts', {}))) if not c.get('inplace') else mpc.settings.nlpsol_opts.update(QUIET, **c.get('nlpopts', {}))
        if c.get('stats'): mpc.set_param(store_solver_stats=list(c['stats']))
        st.use_terminal_bounds = c['uterm'] != 'none'
        X, U, Z, T, P = [mods.symbols(s, m, f, c.get('hd')) for f in ('_x', '_u', '_z', '_tvp', '_p')]
        h = refnlp.MpcRef.__new__(refnlp.MpcRef); h.s = s; h.c = c
        import casadi
        lt = h.lterm(X, U, Z, T, P); mt = h.mterm(X, T, P)
        mpc.set_objective(mterm=mt, lterm=lt)
        if c['rt'] == 'default': mpc.set_rterm(**dict(mods.by_name(s, '_u', c['R'])))
        else:
            up = mods.elems(s, '_u', mpc.u_prev); e = 0.0
            for a, b, r in zip(U, up, c['R']): e = e + r * (a - b) ** 2
            mpc.set_rterm(rterm=e + 0.1 * (U[0] - up[0]) ** 4)
        o = 0
        for n, k in mods.xnames(s):
            mpc.scaling['_x', n] = np.array(c['xscale'][o:o + k]) if k > 1 else c['xscale'][o]
            for bt, v in (('lower', c['xlb']), ('upper', c['xub'])):
                b = np.array(v[o:o + k], float)
                mpc.bounds[bt, '_x', n] = b if k > 1 else float(b[0])
            o += k
        for part, v in ((mpc.scaling, c['us']), ('lower', c['lb']), ('upper', c['ub'])):
            for n, q in mods.by_name(s, '_u', v):
                if part in ('lower', 'upper'): mpc.bounds[part, '_u', n] = q
                else: part['_u', n] = q
        for n, k in mods.znames(s):
            mpc.scaling['_z', n] = c['zs']; mpc.bounds['lower', '_z', n] = c['zlb']; mpc.bounds['upper', '_z', n] = c['zub']
        if c['uterm'] == 'part':            # one element only
            n, k = mods.xnames(s)[0]; mpc.terminal_bounds['upper', n] = np.array([3.0] + [np.inf] * (k - 1)) if k > 1 else 3.0
        if c['uterm'] == 'own':
            o = 0
            for n, k in mods.xnames(s):
                mpc.terminal_bounds['lower', n] = np.full(k, -4.0) if k > 1 else -4.0
                mpc.terminal_bounds['upper', n] = np.full(k, 4.0) if k > 1 else 4.0
                o += k
        for i, con in enumerate(c['cons']):
            e = h.con(con, X, U, Z, T, P)
            kw = dict(soft_constraint=True, penalty_term_cons=con['pen'], maximum_violation=con['maxv']) if con['soft'] else {}
            mpc.set_nl_cons('con%d' % i, e, ub=con['ub'], **kw)
        tpl = mpc.get_tvp_template()
        self.given = {}
        def tvp_fun(t):
            tt = self.cb.hit('tvp', t); o = tpl if self.mode == 'same' else mpc.get_tvp_template()
            vals = [mods.tvp_at(s, self.sig, tt + k * s['tstep']) for k in range(c['N'] + 1)]
            if s['nt']:
                if self.vary: vals = [[q + 0.01 * self.cb.count for q in v] for v in vals]
                for k in range(c['N'] + 1):
                    for i, q in enumerate(vals[k]): o[('_tvp', k) + mods.el(s, '_tvp', i)] = q
            self.given['tvp'] = vals
            return o
        ptpl = mpc.get_p_template(c['ncomb'])
        def p_fun(t):
            tt = self.cb.hit('p', t); o = ptpl if self.mode == 'same' else mpc.get_p_template(c['ncomb'])
            vals = [mods.p_at(s, self.sig, tt, k) for k in range(c['ncomb'])]
            if self.vary: vals = [[x + 0.01 * self.cb.count for x in v] for v in vals]
            for k in range(c['ncomb']):
                for i in range(s['np']): o[('_p', k) + mods.el(s, '_p', i)] = vals[k][i]
            self.given['p'] = vals
            return o
        if s['nt'] or self.mode == 'same': mpc.set_tvp_fun(tvp_fun)
        if s['np']:
            if c['pmode'] == 'values':
                mpc.set_uncertainty_values(**{mods.el(s, '_p', i if isinstance(i, int) else 0)[0]: np.array(v) if len(v) % 2 else [np.array(q) if isinstance(q, list) else q for q in v] for i, v in c['pv']})
            else: mpc.set_p_fun(p_fun)
        mpc.setup()
        self.given.clear()
        self.B = dict(x=[list(c['xlb']), list(c['xub'])], u=[list(c['lb']), list(c['ub'])], z=[[c['zlb']] * s['nz'], [c['zub']] * s['nz']],
                      xt=None)
        if c['uterm'] == 'part': self.B['xt'] = [list(c['xlb']), [3.0] + [np.inf] * (s['nx'] - 1)]
        elif c['uterm'] == 'own': self.B['xt'] = [[-4.0] * s['nx'], [4.0] * s['nx']]
        elif c['uterm'] == 'none': self.B['xt'] = [[-np.inf] * s['nx'], [np.inf] * s['nx']]
        # 'default': unset terminal bounds are those of the states (each side)
        else: self.B['xt'] = [list(c['xlb']), list(c['xub'])]
        self.follow = [c['uterm'] in ('default', 'part'), c['uterm'] == 'default']
        self.t = 0.0; self.u = np.zeros((s['nu'], 1)); self.x = np.zeros((s['nx'], 1)); self.z = np.zeros(s['nz']); self.rows = []; self.k = 0
    def init(self, x, u=None, z=None):
        self.x = np.array(x, float).reshape(-1, 1); self.mpc.x0 = self.x.copy()
        if u is not None: self.u = np.array(u, float).reshape(-1, 1); self.mpc.u0 = self.u.copy()
        if z is not None and self.s['nz']: self.z = np.array(z, float).reshape(-1); self.mpc.z0 = np.array(z, float).reshape(-1, 1)
        self.mpc.set_initial_guess()
    def snap(self):
        d = {'x0': flat(self.mpc.x0), 'u0': flat(self.mpc.u0), 'z0': flat(self.mpc.z0), 't0': flat(self.mpc.t0)}
        for k, v in self.mpc.data.export().items():
            if k.startswith('t_') or k.startswith('_lam') or k in ('iter_count', 'iterations', 'return_status') or k.startswith('n_call'): continue
            d['data.' + k] = np.array(v, float)
        return d
    def cur_params(self, x):
        s, c = self.s, self.c
        T = self.given.get('tvp') or [mods.tvp_at(s, self.sig, self.t + k * s['tstep']) for k in range(c['N'] + 1)]
        P = self.given.get('p')
        if P is None:
            P = pcombs(s, c) if c['pmode'] == 'values' and s['np'] else [mods.p_at(s, self.sig, self.t, k) for k in range(c['ncomb'])]
        return T, P
    def step_op(self, op):
        s = self.s; f = op.get('fault')
        x = np.array(op['x'], float).reshape(-1, 1); how = op.get('how', 'np')
        import casadi
        xa = casadi.DM(x) if how == 'dm' else (self.model._x(casadi.DM(x)) if how == 'struct' else (x.reshape(-1).copy() if how == 'flat' else x.copy()))
        if f and f['k'] == 'bad-x': xa = bad_value(f['b'], s['nx'])
        self.cb.calls = []; self.given.clear()
        self.uprev = self.u.copy()
        res = self.call(lambda: self.mpc.make_step(xa), f)
        if op.get('mut'): spoil(xa)
        if res[0] == 'ok':
            T, P = self.cur_params(x)
            self.cur = (x, T, P, self.t)
            self.rows.append(dict(_x=x.reshape(-1), _u=flat(res[1]), _tvp=np.array(T[0], float), _p=np.array(P[0], float), _time=np.array([self.t])))
            st = self.mpc.solver_stats; self.rows[-1]['success'] = np.array([float(st['success'])])
            if st['success']: self.rows[-1]['_aux.alt'] = self.aux_at(self.mpc.opt_x_num, 0, 0, x, T, P); self.rows[-1]['_aux'] = self.rows[-1]['_aux.alt'].pop(0)
            self.x = x; self.u = arr(res[1]).copy(); self.t += s['tstep']; self.k += 1
        return res, None
    def do(self, op):
        k = op['op']; o = self.__dict__.get('mpc') or self.mhe
        if k == 'step': return self.step_op(op)
        if k == 'reset':
            o.reset_history(); self.t = 0.0; self.rows = []
            if 'ylist' in self.__dict__: self.ylist = []
            if op.get('init'): self.init(**op['init'])
            return ('ok', None), None
        if k == 'setu':
            o.u0 = np.array(op['u'], float).reshape(-1, 1)
            if 'mpc' in self.__dict__: self.u = np.array(op['u'], float).reshape(-1, 1)
            return ('ok', None), None
        if k == 'sett': self.t = float(op['t']); o.t0 = op['t'] if isinstance(op['t'], int) else np.array([op['t']]); return ('ok', None), None
        raise Harness('op ' + k)
    def plan(self):
        """values of the stored plan in the order of the reference problem"""
        return self.values(self.mpc.opt_x_num)
    def aux_at(self, ox, k, q, x, T, P):
        """the auxiliary expressions at a node of the plan, for each of its branches"""
        s, c = self.s, self.c; n = c['ncomb']; usc = np.array(c['us'])
        u = flat(ox['_u', k, 0 if c['open_loop'] else q]) * usc
        br = [(q * n + b, b) for b in range(n)] if k < c['nr'] else [(q, q % n if c['nr'] else 0)]
        return [mods.auxvals(s, x, u, flat(ox['_z', k, ch, -1]) * c['zs'], T[k], P[b] if s['np'] else []) for ch, b in br]
    def check_aux(self, out, pid, what):
        if not self.s.get('ax2'): return True
        s, c, m = self.s, self.c, self.mpc; x, T, P, t = self.cur; ox = m.opt_x_num; xsc = np.array(c['xscale'])
        for k in range(c['N']):
            for q in range(c['ncomb'] ** min(k, c['nr'])):
                got = flat(m.opt_aux_num['_aux', k, q]); w = self.aux_at(ox, k, q, flat(ox['_x', k, q, -1]) * xsc, T, P)
                if not any(np.allclose(got, a, rtol=1e-6, atol=1e-6) for a in w): out.violation(pid, 'plan-aux', '%s at t=%g: the predicted auxiliary expressions at stage %d of scenario %d are %s, those of the plan are %s' % (what, t, k, q, got, w[0])); return False
        return True
    def values(self, ox):
        s, c = self.s, self.c
        xsc = np.array(c['xscale']); usc = np.array(c['us'])
        soft = ['con%d' % i for i, q in enumerate(c['cons']) if q['soft']]
        def get(kind, k, q, j=None):
            if kind == 'x': return flat(ox['_x', k, q, -1]) * xsc
            if kind == 'xc': return flat(ox['_x', k + 1, q, j]) * xsc
            if kind == 'u': return flat(ox['_u', k, q]) * usc
            if kind == 'z': return flat(ox['_z', k, q, j]) * c['zs']
            if kind == 'e': return np.array([float(ox['_eps', k, q, n]) for n in soft])
        return self.ref.from_plan(get)
    def check_plan(self, pid, what, opt=True, tol=1e-5):
        """feasibility (and optimality) of the plan of the last successful step"""
        out = self.out; x, T, P, t = self.cur; R = self.ref
        par = R.params(x, self.uprev, T, P); v = self.plan()
        r, f = R.gfun(v, par); r = np.array(r).reshape(-1); f = float(f)
        scale = 1 + np.abs(v).max()
        bad = np.where((r < R.glb - tol * scale) | (r > R.gub + tol * scale) | np.isnan(r))[0]
        if len(bad): out.violation(pid, 'plan-constraints', '%s at t=%g: the plan violates "%s" by %.3g' % (what, t, R.gname[bad[0]], max(R.glb[bad[0]] - r[bad[0]], r[bad[0]] - R.gub[bad[0]]))); return False
        lb, ub = R.bounds(self.B)
        bad = np.where((v < lb - tol * (1 + np.abs(v))) | (v > ub + tol * (1 + np.abs(v))))[0]
        if len(bad): i = bad[0]; out.violation(pid, 'plan-bounds', '%s at t=%g: %s of the plan is %g, bounds in force are [%g, %g]' % (what, t, R.name(i), v[i], lb[i], ub[i])); return False
        o, n = R.V.idx['u', 0, 0]
        if not np.allclose(v[o:o + n], self.u.reshape(-1), rtol=1e-9, atol=1e-9):
            out.violation(pid, 'returned-input', '%s at t=%g: returned input %s is not the first input %s of the plan' % (what, t, self.u.reshape(-1), v[o:o + n])); return False
        if not self.check_aux(out, pid, what): return False
        if not opt: return True
        xr, fr, ok, status = R.solve(par, self.B, v)
        if not ok: out.stats['reference-unsolved'] += 1; return True
        ur = xr[o:o + n]
        if np.max(np.abs(ur - self.u.reshape(-1))) > 2e-4 * (1 + np.abs(ur).max()) and f - fr > -1e-6 * (1 + abs(fr)):
            out.violation(pid, 'not-optimal', '%s at t=%g: returned input %s, the optimum of the configured problem is %s (cost %.8g against %.8g)' % (what, t, self.u.reshape(-1), ur, f, fr)); return False
        out.stats['optima-checked'] += 1
        return True

# ------------------------------------------------------------------ MHE
def gen_mhe(rng, s, cons=True):
    npe = s['np']; pe = [i for i in range(npe) if rng.chance(0.5)]
    if mods.pnames(s) == [('pv', 2)] and len(pe) == 1: pe = [0, 1]
    nc = rng.pick([0, 0, 0, 1]) if cons else 0
    nx = s['nx']
    c = dict(N=rng.pick([1, 2, 3, 4, 5]), pe=pe, deg=rng.pick([2, 2, 3]), ni=rng.pick([1, 1, 2]), coll=rng.pick(['radau', 'radau', 'legendre']), cchk=rng.chance(0.7), ncchk=rng.chance(0.2), single_slack=rng.chance(0.3),
             Px=[rng.fl(0.3, 4, 2) for _ in range(nx)], Pv=[rng.fl(1, 8, 2) for _ in range(mods.n_v(s))], Pw=[rng.fl(1, 8, 2) for _ in range(mods.n_w(s))], Pp=[rng.fl(0.5, 4, 2) for _ in pe],
             tw=rng.pick([0.0, 0.0, 0.5]), pw=rng.pick([0.0, 0.0, 0.5]), xscale=[rng.pick([1.0, 1.0, 0.4, 5.0]) for _ in range(nx)], us=[rng.pick([1.0, 1.0, 0.5, 4.0]) for _ in range(s['nu'])], zs=rng.pick([1.0, 2.0]),
             ps=[rng.pick([1.0, 0.5, 4.0]) for _ in pe], cons=[], full=rng.chance(0.5), mults=rng.chance(0.7), yfun=rng.pick(['data', 'data', 'user']), hd=rng.chance(0.35))
    if not mods.n_w(s) and not mods.n_v(s): raise ValueError
    for i in range(nc):
        c['cons'].append(dict(a=vec_(rng, nx), b=[0.0] * s['nu'], z=rng.pick([0.0, 0.5]), t=rng.pick([0.0, 0.3]), p=rng.pick([0.0, 0.3]), q=rng.pick([0.0, 0.2]), ub=rng.fl(0.3, 1.5, 2), soft=True, pen=rng.pick([2.0, 20.0]), maxv=rng.pick([float('inf'), 50.0])))
    inf = float('inf')
    c['xub'] = [rng.pick([inf, inf, rng.fl(1.5, 5, 2)]) for _ in range(nx)]; c['xlb'] = [rng.pick([-inf, -inf, -rng.fl(1.5, 5, 2)]) for _ in range(nx)]
    c['ub'] = [5.0] * s['nu']; c['lb'] = [-5.0] * s['nu']; c['zub'] = rng.pick([inf, 8.0, 0.8]); c['zlb'] = -c['zub']
    c['pub'] = [rng.pick([inf, rng.fl(0.2, 2, 2)]) for _ in pe]; c['plb'] = [rng.pick([-inf, -rng.fl(0.2, 2, 2)]) for _ in pe]
    return c

class MheLoop(Loop):
    def __init__(self, dm, s, c, sig, out, mode='fresh', model=None, vary=False):
        self.dm = dm; self.s = s; self.c = c; self.sig = sig; self.out = out; self.mode = mode; self.cb = Callbacks(); self.vary = vary
        self.model = model or mods.build_model(dm, s, meas_u=True)
        self._ref = None; self.new()
    @property
    def ref(self):
        if self._ref is None: self._ref = refnlp.MheRef(self.s, self.c)
        return self._ref
    def window_times(self, t): return [t - (self.c['N'] - 1 - k) * self.s['tstep'] for k in range(self.c['N'])]
    def new(self):
        import casadi
        s, c, dm, m = self.s, self.c, self.dm, self.model; N = c['N']
        names = []
        for i in c['pe']:
            if mods.el(s, '_p', i)[0] not in names: names.append(mods.el(s, '_p', i)[0])
        mhe = self.mhe = dm.estimator.MHE(m, names)
        mhe.set_param(n_horizon=N, t_step=s['tstep'], store_full_solution=c['full'], store_lagr_multiplier=c['mults'], meas_from_data=c['yfun'] == 'data', collocation_deg=c['deg'], collocation_type=c['coll'], collocation_ni=c['ni'],
                      cons_check_colloc_points=c['cchk'], nl_cons_single_slack=c['single_slack'], nl_cons_check_colloc_points=c['ncchk'])
        mhe.set_param(nlpsol_opts=dict(QUIET, **c.get('nlpopts', {}))) if not c.get('inplace') else mhe.settings.nlpsol_opts.update(QUIET, **c.get('nlpopts', {}))
        if c.get('stats'): mhe.set_param(store_solver_stats=list(c['stats']))
        X, U, Z, T, PM = [mods.symbols(s, m, f, c.get('hd')) for f in ('_x', '_u', '_z', '_tvp', '_p')]
        nv, nw = mods.n_v(s), mods.n_w(s)
        if c['tw'] or c['pw']:
            st = casadi.DM(0); v = mhe._v.cat; w = mhe._w.cat
            for i in range(nv): st = st + c['Pv'][i] * (1 + (c['tw'] * T[0] ** 2 if s['nt'] else 0)) * v[i] ** 2
            for i in range(nw): st = st + c['Pw'][i] * (1 + (c['pw'] * PM[0] ** 2 if s['np'] else 0)) * w[i] ** 2
            dx = mhe._x.cat - mhe._x_prev.cat; ar = casadi.DM(0)
            for i in range(s['nx']): ar = ar + c['Px'][i] * dx[i] ** 2
            if names:
                dp = mhe._p_est.cat - mhe._p_est_prev.cat
                for i in range(len(c['pe'])): ar = ar + c['Pp'][i] * dp[i] ** 2
            mhe.set_objective(st, ar)
        else:
            kw = {}
            if nv: kw['P_v'] = np.diag(c['Pv'])
            if nw: kw['P_w'] = np.diag(c['Pw'])
            if names: kw['P_p'] = np.diag(c['Pp'])
            mhe.set_default_objective(np.diag(c['Px']), **kw)
        o = 0
        for n, k in mods.xnames(s):
            mhe.scaling['_x', n] = np.array(c['xscale'][o:o + k]) if k > 1 else c['xscale'][o]
            for bt, v in (('lower', c['xlb']), ('upper', c['xub'])):
                b = np.array(v[o:o + k], float); mhe.bounds[bt, '_x', n] = b if k > 1 else float(b[0])
            o += k
        for part, v in ((mhe.scaling, c['us']), ('lower', c['lb']), ('upper', c['ub'])):
            for n, q in mods.by_name(s, '_u', v):
                if part in ('lower', 'upper'): mhe.bounds[part, '_u', n] = q
                else: part['_u', n] = q
        for n, k in mods.znames(s):
            mhe.scaling['_z', n] = c['zs']; mhe.bounds['lower', '_z', n] = c['zlb']; mhe.bounds['upper', '_z', n] = c['zub']
        for i, q in enumerate(c['pe']):
            n = mods.el(s, '_p', q)
            mhe.scaling[('_p_est',) + n] = c['ps'][i]; mhe.bounds[('lower', '_p_est') + n] = c['plb'][i]; mhe.bounds[('upper', '_p_est') + n] = c['pub'][i]
        h = refnlp.MpcRef.__new__(refnlp.MpcRef); h.s = s; h.c = c
        P = [(mhe._p_est if i in c['pe'] else mhe._p_set)[mods.el(s, '_p', i)] for i in range(s['np'])]
        for i, con in enumerate(c['cons']):
            kw = dict(soft_constraint=True, penalty_term_cons=con['pen'], maximum_violation=con['maxv']) if con['soft'] else {}
            mhe.set_nl_cons('con%d' % i, h.con(con, X, U, Z, T, P), ub=con['ub'], **kw)
        self.given = {}; self.ylist = []; self.y_now = None
        tpl = mhe.get_tvp_template()
        def tvp_fun(t):
            tt = self.cb.hit('tvp', t); o = tpl if self.mode == 'same' else mhe.get_tvp_template()
            vals = [mods.tvp_at(s, self.sig, q) for q in self.window_times(tt)]
            if s['nt']:
                if self.vary: vals = [[q + 0.01 * self.cb.count for q in v] for v in vals]
                for k in range(N + 1):
                    for i in range(s['nt']): o[('_tvp', k) + mods.el(s, '_tvp', i)] = vals[k][i] if k < N else 55.0                 # the template has one entry more than the window has stages
            self.given['tvp'] = vals
            return o
        ptpl = mhe.get_p_template(); pset = [i for i in range(s['np']) if i not in c['pe']]
        def p_fun(t):
            tt = self.cb.hit('p', t); o = ptpl if self.mode == 'same' else mhe.get_p_template()
            v = mods.p_at(s, self.sig, tt)
            if self.vary: v = [x + 0.01 * self.cb.count for x in v]
            for i in pset: o[mods.el(s, '_p', i)] = v[i]
            self.given['p'] = [v[i] for i in pset]
            return o
        ytpl = mhe.get_y_template()
        def y_fun(t):
            self.cb.hit('y', t); o = ytpl if self.mode == 'same' else mhe.get_y_template()
            win = self.window()
            for k in range(N): o['y_meas', k] = casadi.DM(win[k])
            return o
        if s['nt'] or self.mode == 'same': mhe.set_tvp_fun(tvp_fun)
        if pset or self.mode == 'same': mhe.set_p_fun(p_fun)
        if c['yfun'] == 'user': mhe.set_y_fun(y_fun)
        mhe.setup()
        self.given.clear()
        self.B = dict(x=[list(c['xlb']), list(c['xub'])], u=[list(c['lb']), list(c['ub'])], z=[[c['zlb']] * s['nz'], [c['zub']] * s['nz']], p=[list(c['plb']), list(c['pub'])])
        self.t = 0.0; self.x = np.zeros((s['nx'], 1)); self.p = np.zeros(len(c['pe'])); self.rows = []; self.prior = np.zeros(s['nx']); self.y_now = None
    def window(self):
        N = self.c['N']; ys = self.ylist + ([self.y_now] if self.y_now is not None else [])
        if not ys: return [np.zeros(mods.n_y(self.s) + self.s['nu'])] * N
        ys = ys[-N:]
        return [ys[0]] * (N - len(ys)) + ys
    def init(self, x, p=None, u=None, z=None):
        self.x = np.array(x, float).reshape(-1, 1); self.mhe.x0 = self.x.copy()
        if p is not None and len(self.c['pe']): self.p = np.array(p, float); self.mhe.p_est0 = np.array(p, float).reshape(-1, 1)
        if u is not None: self.mhe.u0 = np.array(u, float).reshape(-1, 1)
        if z is not None and self.s['nz']: self.mhe.z0 = np.array(z, float).reshape(-1, 1)
        self.mhe.set_initial_guess(); self.prior = self.x.reshape(-1).copy()
    def snap(self):
        m = self.mhe
        d = {'x0': flat(m.x0), 'u0': flat(m.u0), 'z0': flat(m.z0), 't0': flat(m.t0), 'p_est0': flat(m.p_est0)}
        for k, v in m.data.export().items():
            if k.startswith('t_') or k.startswith('_lam') or k in ('iter_count', 'iterations', 'return_status') or k.startswith('n_call'): continue
            d['data.' + k] = np.array(v, float)
        return d
    def step_op(self, op):
        import casadi
        s, c = self.s, self.c; f = op.get('fault'); how = op.get('how', 'np')
        y = np.array(op['y'], float).reshape(-1, 1)
        ya = casadi.DM(y) if how == 'dm' else (self.model._y(casadi.DM(y)) if how == 'struct' else (y.reshape(-1).copy() if how == 'flat' else y.copy()))
        if f and f['k'] == 'bad-y': ya = bad_value(f['b'], len(y))
        self.cb.calls = []; self.given.clear(); self.y_now = y.reshape(-1)
        prior, pprev, x0 = self.prior.copy(), self.p.copy(), self.x.copy()
        try:
            res = self.call(lambda: self.mhe.make_step(ya), f)
            if op.get('mut'): spoil(ya)
        finally:
            win = self.window(); self.y_now = None
        if res[0] == 'ok':
            self.ylist.append(y.reshape(-1))
            T = self.given.get('tvp') or [mods.tvp_at(s, self.sig, q) for q in self.window_times(self.t)]
            pset = [i for i in range(s['np']) if i not in c['pe']]; pv = mods.p_at(s, self.sig, self.t)
            P = self.given.get('p') if self.given.get('p') is not None else [pv[i] for i in pset]
            self.cur = (prior, pprev, P, T, win, self.t)
            p = np.zeros(s['np'])
            for i, v in zip(c['pe'], pprev): p[i] = v
            for i, v in zip(pset, P): p[i] = v
            self.rows.append(dict(_x=x0.reshape(-1), _y=y.reshape(-1), _p=p, _tvp=np.array(T[-1], float), _time=np.array([self.t])))
            self.x = arr(res[1]).copy().reshape(-1, 1); self.p = flat(self.mhe.p_est0).copy(); self.t += s['tstep']
            xsc = np.array(c['xscale'])
            self.prior = flat(self.mhe.opt_x_num['_x', 1, -1]) * xsc
            st = self.mhe.solver_stats; self.rows[-1]['success'] = np.array([float(st['success'])])
            if st['success']:
                self.rows[-1]['_aux'] = self.aux_at(c['N'] - 1, T, P)
                self.rows[-1]['_u'] = flat(self.mhe.opt_x_num['_u', -1]) * np.array(c['us'])
        return res, None
    def do(self, op):
        k = op['op']; o = self.__dict__.get('mpc') or self.mhe
        if k == 'step': return self.step_op(op)
        if k == 'reset':
            o.reset_history(); self.t = 0.0; self.rows = []
            if 'ylist' in self.__dict__: self.ylist = []
            if op.get('init'): self.init(**op['init'])
            return ('ok', None), None
        if k == 'setu':
            o.u0 = np.array(op['u'], float).reshape(-1, 1)
            if 'mpc' in self.__dict__: self.u = np.array(op['u'], float).reshape(-1, 1)
            return ('ok', None), None
        if k == 'sett': self.t = float(op['t']); o.t0 = op['t'] if isinstance(op['t'], int) else np.array([op['t']]); return ('ok', None), None
        raise Harness('op ' + k)
    def aux_at(self, k, T, P):
        s, c = self.s, self.c; ox = self.mhe.opt_x_num; p = np.zeros(s['np'])
        for i, v in zip(c['pe'], flat(ox['_p_est']) * np.array(c['ps'])): p[i] = v
        for i, v in zip([i for i in range(s['np']) if i not in c['pe']], P): p[i] = v
        return mods.auxvals(s, flat(ox['_x', k, -1]) * np.array(c['xscale']), flat(ox['_u', k]) * np.array(c['us']), flat(ox['_z', k, -1]) * c['zs'], T[k], p)
    def check_aux(self, out, pid, what):
        if not self.s.get('ax2'): return True
        prior, pprev, P, T, win, t = self.cur
        for k in range(self.c['N']):
            got = flat(self.mhe.opt_aux_num['_aux', k]); w = self.aux_at(k, T, P)
            if not np.allclose(got, w, rtol=1e-6, atol=1e-6): out.violation(pid, 'plan-aux', '%s at t=%g: the auxiliary expressions at stage %d of the window are %s, those of the estimate are %s' % (what, t, k, got, w)); return False
        return True
    def plan(self):
        return self.values(self.mhe.opt_x_num)
    def values(self, ox):
        s, c = self.s, self.c
        xsc, usc = np.array(c['xscale']), np.array(c['us']); soft = ['con%d' % i for i, q in enumerate(c['cons']) if q['soft']]
        def get(kind, k=None, j=None):
            if kind == 'x': return flat(ox['_x', k, -1]) * xsc
            if kind == 'xc': return flat(ox['_x', k + 1, j]) * xsc
            if kind == 'u': return flat(ox['_u', k]) * usc
            if kind == 'z': return flat(ox['_z', k, j]) * c['zs']
            if kind == 'w': return flat(ox['_w', k])
            if kind == 'v': return flat(ox['_v', k])
            if kind == 'p': return flat(ox['_p_est']) * np.array(c['ps'])
            if kind == 'e': return np.array([float(ox['_eps', k, n]) for n in soft])
        return self.ref.from_plan(get)
    def check_plan(self, pid, what, tol=1e-5, opt=True):
        out = self.out; prior, pprev, P, T, win, t = self.cur; R = self.ref
        par = R.params(prior, pprev, P, T, win); v = self.plan()
        r, f = R.gfun(v, par); r = np.array(r).reshape(-1); f = float(f); scale = 1 + np.abs(v).max()
        bad = np.where((r < R.glb - tol * scale) | (r > R.gub + tol * scale) | np.isnan(r))[0]
        if len(bad): out.violation(pid, 'constraints', '%s at t=%g: the solution violates "%s" by %.3g' % (what, t, R.gname[bad[0]], max(R.glb[bad[0]] - r[bad[0]], r[bad[0]] - R.gub[bad[0]]))); return False
        lb, ub = R.bounds(self.B)
        bad = np.where((v < lb - tol * (1 + np.abs(v))) | (v > ub + tol * (1 + np.abs(v))))[0]
        if len(bad): i = bad[0]; out.violation(pid, 'bounds', '%s at t=%g: %s of the solution is %g, bounds in force are [%g, %g]' % (what, t, R.name(i), v[i], lb[i], ub[i])); return False
        o, n = R.V.idx['x', self.c['N']]
        if not np.allclose(v[o:o + n], self.x.reshape(-1), rtol=1e-9, atol=1e-9):
            out.violation(pid, 'returned-estimate', '%s at t=%g: returned estimate %s is not the last state %s of the solution' % (what, t, self.x.reshape(-1), v[o:o + n])); return False
        if self.c['pe']:
            o2, n2 = R.V.idx['p',]
            if not np.allclose(v[o2:o2 + n2], self.p, rtol=1e-9, atol=1e-9): out.violation(pid, 'parameter-estimate', '%s at t=%g: p_est0 %s, the solution has %s' % (what, t, self.p, v[o2:o2 + n2])); return False
        if not self.check_aux(out, pid, what): return False
        if not opt: return True
        xr, fr, ok, status = R.solve(par, self.B, v)
        if not ok: out.stats['reference-unsolved'] += 1; return True
        xe = xr[o:o + n]
        if np.max(np.abs(xe - self.x.reshape(-1))) > 2e-4 * (1 + np.abs(xe).max()) and f - fr > -1e-6 * (1 + abs(fr)):
            out.violation(pid, 'not-optimal', '%s at t=%g: estimate %s, the optimum of the estimation problem is %s (cost %.8g against %.8g)' % (what, t, self.x.reshape(-1), xe, f, fr)); return False
        out.stats['optima-checked'] += 1
        return True

# ------------------------------------------------------------------ LQR
def gen_lqr(rng):
    nx = rng.pick([1, 2, 3]); nu = rng.pick([1, 1, 2])
    A = [[rng.fl(-1, 1, 2) for _ in range(nx)] for _ in range(nx)]; B = [[rng.fl(-1, 1, 2) for _ in range(nu)] for _ in range(nx)]
    for i in range(min(nx, nu)): B[i][i] = rng.pick([0.7, 1.0, -0.8])
    r = max(1e-9, max(sum(abs(a) for a in row) for row in A)); sc = rng.fl(0.5, 0.95, 2) / r
    A = [[round(a * sc, 3) for a in row] for row in A]
    if rng.chance(0.4): A[0][0] = 1.1; A[0][1:] = [0.0] * (nx - 1)       # unstable but controllable through B[0][0]
    return dict(nx=nx, nu=nu, A=A, B=B, Q=[rng.fl(0.3, 3, 2) for _ in range(nx)], R=[rng.fl(0.1, 2, 2) for _ in range(nu)], P=rng.pick([None, None, [rng.fl(0.3, 3, 2) for _ in range(nx)]]),
                dR=rng.pick([None, None, [rng.fl(0.1, 2, 2) for _ in range(nu)]]), hor=rng.pick([None, None, 1, 2, 5]), tstep=rng.pick([1, 0.5, 0.1]), names=rng.chance(0.5))

class LqrLoop(Loop):
    def __init__(self, dm, c, out, model=None):
        self.dm = dm; self.c = c; self.out = out; self.cb = Callbacks()
        if model is None:
            model = dm.model.LinearModel('discrete')
            if c['names']:
                for i in range(c['nx']): model.set_variable('_x', 'x%d' % i)
                for i in range(c['nu']): model.set_variable('_u', 'u%d' % i)
            else: model.set_variable('_x', 'x', (c['nx'], 1)); model.set_variable('_u', 'u', (c['nu'], 1))
            model.setup(np.array(c['A'], float), np.array(c['B'], float))
        self.model = model
        self.A, self.B = np.array(c['A'], float).reshape(c['nx'], c['nx']), np.array(c['B'], float).reshape(c['nx'], c['nu'])
        self.K = self.gain()
        self.new()
    def gain(self):
        """by value iteration, independent of do-mpc and of scipy's Riccati solver"""
        c = self.c; A, B = self.A, self.B; Q, R = np.diag(c['Q']), np.diag(c['R']); P = np.diag(c['P'] if c['P'] else c['Q'])
        nx, nu = c['nx'], c['nu']
        if c['dR']:
            A = np.block([[A, B], [np.zeros((nu, nx)), np.eye(nu)]]); B = np.vstack([B, np.eye(nu)])
            Q = np.block([[Q, np.zeros((nx, nu))], [np.zeros((nu, nx)), R]]); P = np.block([[P, np.zeros((nx, nu))], [np.zeros((nu, nx)), R]]); R = np.diag(c['dR'])
        K = None
        for k in range(c['hor'] or 20000):
            K = -np.linalg.solve(B.T @ P @ B + R, B.T @ P @ A)
            Pn = Q + A.T @ P @ A + A.T @ P @ B @ K; Pn = (Pn + Pn.T) / 2
            if c['hor'] is None and np.max(np.abs(Pn - P)) < 1e-14 * np.max(np.abs(P)): P = Pn; break
            P = Pn
        return K
    def new(self):
        c = self.c; l = self.lqr = self.dm.controller.LQR(self.model)
        l.settings.t_step = c['tstep']
        if c['hor'] is not None: l.settings.n_horizon = c['hor']
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            kw = {'P': np.diag(c['P'])} if c['P'] else {}
            l.set_objective(Q=np.diag(c['Q']), R=np.diag(c['R']), **kw)
            if c['dR']: l.set_rterm(delR=np.diag(c['dR']))
            l.setup()
        self.t = 0.0; self.u = np.zeros((c['nu'], 1)); self.x = np.zeros((c['nx'], 1)); self.xss = np.zeros((c['nx'], 1)); self.uss = np.zeros((c['nu'], 1)); self.rows = []
    def init(self, x=None, u=None): pass
    def expected(self, x):
        if self.c['dR']: return self.K @ (np.vstack([x, self.u]) - np.vstack([self.xss, self.uss])) + self.u
        return self.K @ (x - self.xss) + self.uss
    def snap(self):
        l = self.lqr
        d = {'x0': flat(l.x0), 'u0': flat(l.u0), 't0': flat(l.t0)}
        for k, v in l.data.export().items(): d['data.' + k] = np.array(v, float)
        return d
    def step_op(self, op):
        import casadi
        f = op.get('fault'); how = op.get('how', 'np'); x = np.array(op['x'], float).reshape(-1, 1)
        xa = casadi.DM(x) if how == 'dm' else (self.model._x(casadi.DM(x)) if how == 'struct' else x.copy())
        if f and f['k'] == 'bad-x': xa = bad_value(f['b'], self.c['nx'])
        e = self.expected(x)
        res = self.call(lambda: self.lqr.make_step(xa), f)
        if op.get('mut'): spoil(xa)
        if res[0] == 'ok':
            self.rows.append(dict(_x=x.reshape(-1), _u=e.reshape(-1), _time=np.array([self.t])))
            self.u = e; self.t += self.c['tstep']; self.x = x
        return res, e
    def do(self, op):
        k = op['op']
        if k == 'step': return self.step_op(op)
        if k == 'set':
            kw = {}
            if 'xss' in op: kw['xss'] = np.array(op['xss'], float).reshape(-1, 1)
            if 'uss' in op: kw['uss'] = np.array(op['uss'], float).reshape(-1, 1)
            f = op.get('fault')
            if f and f['k'] == 'bad-ss':
                n = f['w']
                if n in kw: kw[n] = np.vstack([kw[n], [[0.5]]])
                else: kw[n] = np.full((self.c['nx' if n == 'xss' else 'nu'] + 1, 1), 0.3)
            res = self.call(lambda: self.lqr.set_setpoint(**kw), f)
            if op.get('mutate'):
                for v in kw.values(): v[:] = 77.0
            if res[0] == 'ok' and not (f and f['k'] == 'bad-ss'):
                if 'xss' in op: self.xss = np.array(op['xss'], float).reshape(-1, 1)
                if 'uss' in op: self.uss = np.array(op['uss'], float).reshape(-1, 1)
            return res, None
        if k == 'setu': self.u = np.array(op['u'], float).reshape(-1, 1); self.lqr.u0 = self.u.copy(); return ('ok', None), None
        if k == 'sett': self.t = float(op['t']); self.lqr.t0 = np.array([op['t']]); return ('ok', None), None
        if k == 'reset': self.lqr.reset_history(); self.t = 0.0; self.rows = []; return ('ok', None), None
        raise Harness('op ' + k)
