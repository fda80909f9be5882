"""C18: parametric sensitivities of MPC and MHE over histories."""
import io, contextlib
import numpy as np
from .runner import Check, Violation, Harness
from .rng import Rng
from . import load, mods, sched
from .loops import *
from .cl import *
from .cl import ClCheck, set_mhe_bound
from . import cl2
from .cl2 import Dummy, export_all

class Kkt:
    """sensitivities of a parametric optimisation problem by the implicit function theorem; None where they are not clearly defined"""
    def __init__(self, x, p, f, g):
        import casadi as ca
        n, m = x.shape[0], g.shape[0]; l = ca.SX.sym('l', m); self.n, self.m, self.np = n, m, p.shape[0]
        L = f + ca.dot(l, g); gr = ca.gradient(L, x)
        self.fun = ca.Function('k', [x, p, l], [ca.jacobian(gr, x), ca.jacobian(g, x), ca.jacobian(gr, p), ca.jacobian(g, p), ca.gradient(f, x), g])
        d = np.array(ca.which_depends(ca.vertcat(f, g), x, 1, False) if n else [], bool)
        self.det = np.where(d)[0]
    def active(self, v, lam, lb, ub, eq_ok=True):
        """(indices of active ones, unclear?, indices of active inequalities)"""
        dl, du = np.abs(v - lb), np.abs(v - ub); dist = np.minimum(dl, du); eq = lb == ub; l = np.abs(lam)
        act = eq | (dist < l)
        bad = ~eq & ((dist < 1e-3) & (l < 1e-3) | np.isnan(dist) & False)
        return np.where(act)[0], bool(np.any(bad)), np.where(act & ~eq)[0]
    def sens(self, x, p, lg, lx, lbx, ubx, lbg, ubg):
        H, J, Hp, Gp, gf, g = [np.array(q, float) for q in self.fun(x, p, lg)]; r = lambda q: np.asarray(q, float).reshape(-1)
        x, lg, lx = r(x), r(lg), r(lx); D = self.det
        ag, b1, ig = self.active(r(g), lg, r(lbg), r(ubg)); ax, b2, ix = self.active(x[D], lx[D], r(lbx)[D], r(ubx)[D])
        if b1 or b2: return None, 'unclear active set'
        Ja = np.vstack([J[ag][:, D], np.eye(len(D))[ax]]); na = len(Ja)
        K = np.block([[H[np.ix_(D, D)], Ja.T], [Ja, np.zeros((na, na))]]); B = np.vstack([Hp[D], Gp[ag], np.zeros((len(ax), self.np))])
        self.info = dict(ag=ag, ax=D[ax], sv=np.linalg.svd(Ja, compute_uv=False) if na else np.ones(1), na=na, nd=len(D), lam=np.concatenate([lg[ag], lx[D][ax]]), ilam=np.concatenate([lg[ig], lx[D][ix]]))
        stat = gf[:, 0] + J.T @ lg + lx
        if np.max(np.abs(stat[D]), initial=0) > 1e-4 * (1 + np.abs(lg).max(initial=0)): return None, 'not stationary'
        sc = np.sqrt(np.maximum(np.abs(K).max(axis=1), 1e-300)); Ks = K / sc[:, None] / sc[None, :]
        sv = np.linalg.svd(Ks, compute_uv=False)
        if na > len(D) or sv[-1] < 1e-7 * sv[0]: return None, 'singular'
        S = np.linalg.solve(Ks, -B / sc[:, None]) / sc[:, None]
        dx = np.zeros((self.n, self.np)); dx[D] = S[:len(D)]; dl = np.zeros((self.m + self.n, self.np)); dl[np.concatenate([ag, self.m + D[ax]])] = S[len(D):]
        return (dx, dl), None

SETTINGS = [dict(), dict(lin_solver='scipy'), dict(lin_solver='lstsq'), dict(set_lam_zero=True), dict(check_LICQ=False), dict(check_SC=False, track_residuals=False), dict(check_rank=True), dict(lstsq_fallback=True), dict(lin_solver='scipy', lstsq_fallback=True, check_rank=True)]

class C18(ClCheck):
    pid = 'C18'
    batch = 10
    runs = {'quick': 700, 'thorough': 30000}
    rule = 'at least two sensitivities were compared, one of them after a failed step, a change of bounds, an interrupted differentiation or by a second differentiator; distinct if the sensitivities differ'
    def gen(self, rng, idx, tier):
        o = gen_any(rng, ('mpc', 'mpc', 'mhe')); s, c = o['s'], o['c']; s['sym'] = 'SX'
        if c['N'] > 3: c['N'] = 3
        if s['type'] == 'continuous': c['deg'] = min(c['deg'], 2); c['N'] = min(c['N'], 2); c['ni'] = 1
        if o['kind'] == 'mpc' and c['nr'] == 2: c['N'] = 2
        hard = [q for q in c.get('cons', []) if not q['soft']]
        if hard and rng.chance(0.4): c['cons'].append(dict(rng.pick(hard)))         # the same constraint twice: linearly dependent gradients once it is active
        nd = rng.randint(1, 3); D = [dict(rng.pick(SETTINGS)) for _ in range(nd)]; ops = []
        for d in range(nd):
            if rng.chance(0.5): ops.append({'op': 'new', 'd': d})
        for _ in range(rng.randint(4, 9)):
            r = rng.random()
            if r < 0.34 and ops and ops[-1]['op'] != 'diff':
                q = {'op': 'diff', 'd': rng.randint(0, nd - 1)}
                if rng.chance(0.25): q['int'] = rng.pick([rng.randint(1, 40), rng.randint(1, 110)])
                if rng.chance(0.2): q['set'] = dict(rng.pick(SETTINGS))
                if rng.chance(0.2): q['mut'] = 1
                if rng.chance(0.15): q['raw'] = 1
                ops.append(q)
                if rng.chance(0.3): ops.append(dict(q, d=rng.randint(0, nd - 1), int=0))
                continue
            if r < 0.46: ops.append(self.bound(rng, o)); continue
            if r < 0.49: ops.append({'op': 'reset', 'init': gen_init(rng, o)} if rng.chance(0.5) else {'op': 'reset'}); continue
            if r < 0.53 and o['kind'] == 'mpc': ops.append({'op': 'setu', 'u': vec(rng, s['nu'])}); continue
            p = gen_step(rng, o)
            if rng.chance(0.25): p['fault'] = gen_fault(rng, o)
            ops.append(p)
            if rng.chance(0.4): ops.append({'op': 'diff', 'd': rng.randint(0, nd - 1)})
        ops.append(gen_step(rng, o)); ops.append({'op': 'diff', 'd': 0})
        return dict(o=o, init=gen_init(rng, o), ops=ops, D=D, dir=rng.randint(0, 1 << 30))
    def bound(self, rng, o):
        s, c = o['s'], o['c']
        if o['kind'] == 'mpc':
            b = gen_bound_op(rng, s, c)
            if b['v'] == 'u' and rng.chance(0.6): b['lo'] = round(b['lo'] / 4, 3); b['hi'] = round(b['hi'] / 4, 3)
            return b
        v = rng.pick(['x', 'x'] + (['p'] if c['pe'] else []) + (['z'] if s['nz'] else []))
        n = {'x': s['nx'], 'p': len(c['pe']), 'z': s['nz']}[v]; m = {'x': (0.1, 2.0), 'p': (0.05, 1.0), 'z': (5.0, 9.0)}[v]
        return {'op': 'bound', 'v': v, 'i': rng.randint(0, n - 1), 'lo': -rng.fl(*m, 2), 'hi': rng.fl(*m, 2)}
    def maps(self, L, kind):
        """rows of opt_x and columns of opt_p in the order of the reference problem"""
        m = obj(L); R = L.ref; n = m.opt_x.shape[0]
        one = L.values(m.opt_x(1)); rows = np.round(L.values(m.opt_x(np.arange(1, n + 1.0))) / one).astype(int) - 1
        q = m.opt_p(np.arange(m.opt_p.shape[0]) * 1.0); g = lambda *i: flat(q[i]) if np.size(q[i]) else np.zeros(0)
        if kind == 'mpc': cols = R.params(g('_x0'), g('_u_prev'), [g('_tvp', k) for k in range(L.c['N'] + 1)], [g('_p', k) for k in range(L.c['ncomb'])])
        else: cols = R.params(g('_x_prev'), g('_p_est_prev'), g('_p_set'), [g('_tvp', k) for k in range(L.c['N'])], [g('_y_meas', k) for k in range(L.c['N'])])
        return rows, cols.astype(int)
    def history(self, case, out, diffs):
        o = case['o']; kind = o['kind']; dm = self.dm; L = build(dm, o, out); L.init(**case['init']); res = []; self.L = L
        self.sol = None; self.have = {}; box = {'dirty': False}
        def obs(proxy, kw, r, st):
            if st is not None: box['kw'], box['r'] = kw, r
        for i, op in enumerate(case['ops']):
            f = op.get('fault'); k = op['op']; what = 'op %d %s%s' % (i, k, (' fault %s' % f['k']) if f else '')
            if k in ('new', 'diff'):
                if not diffs: continue
                if not self.diff(case, op, out, i): return None
                continue
            if k == 'bound':
                (set_bound if kind == 'mpc' else set_mhe_bound)(L, op); self.sol = None; box['dirty'] = True; continue
            if k == 'step':
                load.Faults.observer = obs
                try: r = L.do(op)[0]
                finally: load.Faults.observer = None
                if r[0] == 'ok':
                    self.sol = None; self.event = bool(op.get('fault')) or box['dirty'] or self.event
                    if good(L) and not (f and f['k'] == 'fail' and L.last.fired):
                        import copy
                        self.sol = dict(B=copy.deepcopy(L.B), kw={a: b if a != 'p' else np.array(b) for a, b in box['kw'].items()}, r=box['r'])
                        x = L.cur
                        self.sol['par'] = L.ref.params(x[0], L.uprev, x[1], x[2]) if kind == 'mpc' else L.ref.params(*x[:5])
                        self.sol['v'] = L.plan(); box['dirty'] = False
                        for q in ('lbx', 'ubx', 'lbg', 'ubg'): self.sol[q] = flat(box['kw'][q])
                        self.sol['p'] = flat(box['kw']['p'])
                else: self.event = True
                res.append([r[0], result(L, r).tolist() if r[0] == 'ok' else [], bool(good(L)) if r[0] == 'ok' else type(r[1]).__name__])
            else:
                r = L.do(op)[0]; res.append([r[0], [], True])
                if k == 'reset': self.sol = None
        return dict(res=res, export={k: [list(np.shape(v)), np.asarray(v, float).reshape(-1).tolist()] for k, v in export_all(L).items()})
    def make(self, L, case, d):
        with contextlib.redirect_stdout(io.StringIO()): return self.dm.differentiator.DoMPCDifferentiator(obj(L), **case['D'][d])
    def diff(self, case, op, out, i):
        L = self.L; d = op['d']; pid = self.pid; m = obj(L); what = 'op %d' % i
        if d not in self.have:
            try: self.have[d] = self.make(L, case, d)
            except Exception as e: out.violation(pid, 'failed', '%s: DoMPCDifferentiator(%s) raised %r' % (what, case['D'][d], e)); return False
            self.conf = getattr(self, 'conf', {}); self.conf[d] = dict(case['D'][d])
        if op['op'] == 'new': return True
        D = self.have[d]
        for k, v in (op.get('set') or {}).items(): setattr(D.settings, k, v); self.conf[d][k] = v
        before = self.snap(m)
        cb = Callbacks(); inj = Inject({'k': 'int', 'n': op['int']} if op.get('int') else None, cb, out)
        def go():
            if op.get('raw') and self.sol is not None:
                r = self.sol['r']; b = {k: np.array(self.sol[k]).reshape(-1, 1) for k in ('lbx', 'ubx', 'lbg', 'ubg')}
                import casadi as ca
                with contextlib.redirect_stdout(io.StringIO()): N = self.dm.differentiator.NLPDifferentiator({'x': ca.vertcat(m.opt_x), 'p': ca.vertcat(m.opt_p), 'f': m.nlp_obj, 'g': m.nlp_cons}, {k: ca.DM(v) for k, v in b.items()}, **self.conf[d])
                a, l = N.differentiate({'x': r['x'], 'g': r['g'], 'lam_x': r['lam_x'], 'lam_g': r['lam_g']}, ca.DM(self.sol['p']))
                return N, arr_(a) * flat(m.opt_x_scaling)[:, None], arr_(l), None
            a, l = D.differentiate()
            return D, arr_(a), arr_(l), D.sens_num
        r = None
        try:
            with inj: r = go()
        except KeyboardInterrupt:
            if not op.get('int'): raise
            self.event = True
        except Exception as e:
            if self.sol is None: return True          # nothing to differentiate
            import traceback
            out.violation(pid, 'failed', '%s: differentiate() with %s raised %s' % (what, self.conf[d], ''.join(traceback.format_exception(e)[-3:])[-600:])); return False
        after = self.snap(m); q = diff(after, before, 0.0)
        if q: out.violation(pid, 'changed', '%s: differentiate() changed the %s: %s' % (what, L.__class__.__name__, q)); return False
        if r is None and self.sol is not None:        # interrupted: once more
            try: r = go()
            except Exception as e: out.violation(pid, 'failed', '%s: after an interrupted differentiate() the next one raised %r' % (what, e)); return False
        if r is None or self.sol is None: return True
        return self.judge(case, what, r, d, out)
    def snap(self, m):
        d = {k: flat(getattr(m, k)) for k in ('x0', 'u0', 'z0', 't0', 'opt_x_num', 'opt_p_num', 'opt_x_num_unscaled', 'lam_g_num', 'lam_x_num', 'opt_g_num') if hasattr(m, k)}
        for k in ('_lb_opt_x', '_ub_opt_x', 'nlp_cons_lb', 'nlp_cons_ub'): d[k] = flat(getattr(m, k))
        return d
    def judge(self, case, what, r, d, out):
        D, dx, dl, sens = r; L = self.L; pid = self.pid; S = self.sol; m = obj(L); R = L.ref; kind = case['o']['kind']; st = D.status; conf = self.conf[d]
        n, p = m.opt_x.shape[0], m.opt_p.shape[0]; ng = m.nlp_cons.shape[0]
        if dx.shape != (n, p) or dl.shape != (ng + n, p): out.violation(pid, 'shape', '%s: sensitivities of shapes %s and %s for %d variables, %d constraints and %d parameters' % (what, dx.shape, dl.shape, n, ng, p)); return False
        if sens is not None and not np.array_equal(arr_(sens['dxdp']), dx, equal_nan=True): out.violation(pid, 'sens_num', '%s: sens_num["dxdp"] is not the returned matrix' % what); return False
        import casadi as ca
        if self.K is None: self.K = Kkt(ca.vertcat(m.opt_x), ca.vertcat(m.opt_p), m.nlp_obj, m.nlp_cons)
        sr = S['r']; own, why = self.K.sens(flat(sr['x']), S['p'], flat(sr['lam_g']), flat(sr['lam_x']), S['lbx'], S['ubx'], S['lbg'], S['ubg'])
        tol = conf.get('active_set_tol', 1e-6)
        if own is None:
            out.stats['undefined: ' + why] += 1
            if not st.lse_solved and not (np.any(np.isnan(dx)) and np.all(np.isnan(dx) | (dx == 0))): out.violation(pid, 'unsolved', '%s: the linear system is not solved by the status, but there are sensitivities' % what); return False
            if not st.lse_solved: out.stats['reported as unsolved'] += 1
            if not st.lse_solved and (conf.get('lstsq_fallback') or conf.get('lin_solver') == 'lstsq'): out.violation(pid, 'unsolved', '%s: no least-squares sensitivities with the settings %s' % (what, conf)); return False
            if why == 'singular' and conf.get('check_rank') and not self.near(S, sr):
                I = self.K.info
                if I['na'] > I['nd'] or I['sv'].min() < 1e-15 * I['sv'].max():
                    out.stats['ranks of singular systems'] += 1
                    if st.full_rank: out.violation(pid, 'rank', '%s: status.full_rank is True although the gradients of the active constraints are linearly dependent' % what); return False
            if why == 'singular' and conf.get('check_LICQ', True):
                I = self.K.info
                if (I['na'] > I['nd'] or I['sv'].min() < 1e-13 * I['sv'].max()) and st.LICQ and not self.near(S, sr): out.violation(pid, 'LICQ', '%s: status says LICQ although the gradients of the active constraints are linearly dependent' % what); return False
            return True
        if self.near(S, sr): out.stats['undefined: near tolerance'] += 1; return True
        if not st.lse_solved or not np.all(np.isfinite(dx)): out.violation(pid, 'unsolved', '%s: no sensitivities (settings %s) where the optimality conditions are regular' % (what, conf)); return False
        I = self.K.info
        if conf.get('check_LICQ', True) and not st.LICQ: out.violation(pid, 'LICQ', '%s: status says no LICQ; smallest singular value of the gradients of active constraints is %.3g' % (what, I['sv'].min())); return False
        la = np.abs(I['lam'])
        if conf.get('check_SC', True) and not np.any((la > tol * 1e-3) & (la < tol * 1e3)):
            if bool(st.SC) != bool(np.all(la >= tol)): out.violation(pid, 'SC', '%s: status.SC is %s; smallest multiplier of an active constraint is %.3g' % (what, st.SC, la.min(initial=1))); return False
        if conf.get('check_rank') and not st.full_rank: out.violation(pid, 'rank', '%s: status.full_rank is %s' % (what, st.full_rank)); return False
        if conf.get('track_residuals', True) and not float(st.residuals) < 1e-5 * (1 + np.abs(dx).max() + np.abs(dl).max()): out.violation(pid, 'residuals', '%s: residuals %s' % (what, st.residuals)); return False
        sc = flat(m.opt_x_scaling)[:, None]
        for nm, got, ref in (('dxdp', dx, own[0] * sc), ('dlamdp', dl, own[1])):
            e = np.abs(got - ref); lim = 1e-4 * (np.abs(ref).max(initial=0) + 1e-3) if nm == 'dxdp' else 1e-4 * (np.abs(ref).max(initial=0) + 1)
            if np.any(e > lim):
                a, b = np.unravel_index(np.argmax(e), e.shape)
                out.violation(pid, nm, '%s: %s of %s with respect to %s is %.8g, the optimality conditions give %.8g' % (what, nm, (m.opt_x.labels() if nm == 'dxdp' else ['g%d' % j for j in range(ng)] + m.opt_x.labels())[a], m.opt_p.labels()[b], got[a, b], ref[a, b])); return False
        out.stats['compared'] += 1; self.ncmp += 1; self.nev += self.event or len(self.have) > 1
        out.log(np.round(dx[:3, :3] * 1e3).tolist())
        return self.derivative(case, what, dx, out)
    def near(self, S, sr):
        """is a constraint near the tolerance of the active set?"""
        for v, a, b in ((flat(sr['x']), S['lbx'], S['ubx']), (flat(sr['g']), S['lbg'], S['ubg'])):
            d = np.minimum(np.abs(v - a), np.abs(v - b)); e = a != b
            if np.any(e & (d > 3e-7) & (d < 3e-6)): return True
            if np.any(~e & (d > 5e-7)): return True
        return False
    def derivative(self, case, what, dx, out):
        """against the optimum of the reference problem with other parameters"""
        L = self.L; R = L.ref; S = self.sol; pid = self.pid
        if self.map is None: self.map = self.maps(L, case['o']['kind'])
        rows, cols = self.map; rg = np.random.RandomState(case['dir'] + self.ncmp); J = dx[np.ix_(rows, cols)]
        dirn = rg.normal(size=len(cols)) if rg.rand() < 0.5 else np.eye(len(cols))[rg.randint(len(cols))]
        E = []
        for h in (4e-4, -4e-4, 2e-4, -2e-4):
            v, f, ok, stt = R.solve(S['par'] + h * dirn, S['B'], S['v'])
            if not ok: out.stats['reference-unsolved'] += 1; return True
            E.append(v)
        d1, d2, d3 = (E[0] - E[1]) / 8e-4, (E[2] - E[3]) / 4e-4, (E[0] - E[2]) / 2e-4; scale = 1 + np.abs(d1).max()
        if max(np.abs(d1 - d2).max(), np.abs(d1 - d3).max()) > 5e-3 * scale: out.stats['no finite difference'] += 1; return True
        e = np.abs(J @ dirn - d1)
        if e.max() > 2e-2 * scale:
            a = int(np.argmax(e)); out.violation(pid, 'derivative', '%s: the directional derivative of %s is %.6g, the optimum changes by %.6g' % (what, R.name(a), (J @ dirn)[a], d1[a])); return False
        out.stats['finite differences'] += 1
        return True
    def run(self, case, out):
        self.K = None; self.map = None; self.ncmp = self.nev = 0; self.event = False; self.conf = {}
        A = self.history(case, out, True)
        if A is None or out.viol: return
        ref = self.history(case, Dummy(), False); n, d = cl2.compare(ref, A, 1e-9)
        if d: out.violation(self.pid, 'disturbed', 'a loop in which sensitivities were computed: %s' % d); return
        out.sim_time = n * case['o']['s']['tstep']; out.stats['steps'] += n
        out.nontrivial = self.ncmp >= 2 and self.nev >= 1; out.summary = '%s: %d sensitivities, %d steps' % (case['o']['kind'], self.ncmp, n)

def arr_(v):
    if hasattr(v, 'toarray'): return np.asarray(v.toarray(), float)
    return np.asarray(v.full() if hasattr(v, 'full') else v, float)
def make(pid): return globals()[pid]()

# ------------------------------------------------------------------ C19
def matrices(s, x, u, t, p):
    """derivatives of the model equations at a point"""
    import casadi as ca
    X, U = ca.SX.sym('x', s['nx']), ca.SX.sym('u', s['nu']); sx = lambda v, n: [v[i] for i in range(n)]
    f = mods.rhs(dict(s, w=False), mods.CA, sx(X, s['nx']), sx(U, s['nu']), [], t, p, None); y = mods.meas(dict(s, v=False), mods.CA, sx(X, s['nx']), sx(U, s['nu']), [], t, p, None)
    return [np.array(q, float) for q in ca.Function('m', [X, U], [ca.jacobian(f, X), ca.jacobian(f, U), ca.jacobian(y, X), ca.jacobian(y, U)])(x, u)]
def expm(M):
    n = max(0, int(np.ceil(np.log2(max(np.abs(M).sum(axis=1).max(), 1e-9)))) + 6); M = M / 2 ** n; E = T = np.eye(len(M))
    for k in range(1, 14): T = T @ M / k; E = E + T
    for _ in range(n): E = E @ E
    return E
def sampled(A, B, C, D, h, how):
    nx, nu = B.shape; I = np.eye(nx)
    if how == 'zoh':
        E = expm(np.block([[A, B], [np.zeros((nu, nx + nu))]]) * h); return E[:nx, :nx], E[:nx, nx:], C, D
    if how == 'foh':
        Z = np.zeros; E = expm(np.block([[A * h, B * h, Z((nx, nu))], [Z((nu, nx + nu)), np.eye(nu)], [Z((nu, nx + 2 * nu))]])); P, G1, G2 = E[:nx, :nx], E[:nx, nx:nx + nu], E[:nx, nx + nu:]
        return P, G1 - G2 + P @ G2, C, D + C @ G2
    a = {'euler': 0.0, 'backward_diff': 1.0, 'bilinear': 0.5}[how]; M = np.linalg.inv(I - a * h * A)
    return M @ (I + (1 - a) * h * A), M @ B * h, C @ M, D + a * C @ M @ B * h

def typ_discrete(s): return s['type'] == 'discrete'
class C19(ClCheck):
    pid = 'C19'
    batch = 15
    runs = {'quick': 900, 'thorough': 40000}
    shrink_lists = [('derive',), ('ops',)]
    rule = 'at least two models were derived, one of them interrupted or while a loop with the original was running, and at least three steps were made with them; distinct if results and schedules differ'
    def gen(self, rng, idx, tier):
        src = rng.pick(['nonlin', 'nonlin', 'matrix', 'dae'])
        if src == 'dae': s = mods.gen_spec(rng, typ='continuous', nz=1, nv=False)
        else: s = mods.gen_spec(rng, nz=0)
        s['sym'] = 'SX'; s['bil'] = rng.fl(-0.4, 0.4, 3) if src == 'nonlin' and rng.chance(0.5) else 0.0; sig = mods.gen_sig(rng, s)
        if src == 'dae':
            for q in sig['p']: q[1] = 0.0
            sig['tv'] = [sig['tv'][0], 0.0, 0.0]
        if src == 'matrix': s['np'] = s['nt'] = 0; s['w'] = s['v'] = False
        D = []
        for _ in range(rng.randint(1, 3)):
            d = {'xss': vec(rng, s['nx']), 'uss': vec(rng, s['nu']), 't': vec(rng, 2), 'p': vec(rng, s['np']), 'how': rng.pick(['np', 'np', 'dm', 'struct'])}
            if s['type'] == 'continuous' and src != 'dae' and rng.chance(0.75): d['h'] = rng.pick([0.1, 0.25, 0.5, 1.0, 1]); d['method'] = rng.pick(['zoh', 'zoh', 'bilinear', 'euler', 'backward_diff', 'foh'])
            if rng.chance(0.4): d['int'] = rng.pick([rng.randint(1, 25), rng.randint(1, 90), rng.randint(20, 250)])
            d['use'] = rng.pick(['sim', 'lqr', 'both']) if src != 'dae' else 'sim'; d['steady'] = rng.chance(0.4)
            d['lqr'] = gen_lqr(rng); d['init'] = {'x': vec(rng, s['nx']), 'u': vec(rng, s['nu'], 0.5)}
            st = []
            for _ in range(rng.randint(2, 4)):
                q = {'u': vec(rng, s['nu'])}
                if src == 'dae' and s['w'] and rng.chance(0.7): q['w'] = vec(rng, s['nx'], 0.3)
                if rng.chance(0.3): q['fault'] = rng.pick([{'k': 'int', 'n': rng.randint(1, 60)}, {'k': 'raise'}, {'k': 'bad-u', 'b': rng.pick(BADS)}])
                st.append(q)
            d['steps'] = st; d['nw'] = rng.chance(0.5)
            D.append(d)
        o = dict(kind='sim', s=s, sig=sig, mode='fresh', st={}, meas_u=False)
        ops = []
        for _ in range(rng.randint(2, 4)):
            p = gen_step(rng, o)
            if rng.chance(0.2):
                f = gen_sim_fault(rng, s)
                if f['k'] != 'int': p['fault'] = f
            ops.append(p)
        return dict(src=src, o=o, init=gen_init(rng, o), ops=ops, derive=D, C=rng.pick(['none', 'given', 'full', 'unit']), D=rng.pick([0, 0, 1, 2]), sing=rng.chance(0.3), relin=rng.chance(0.4), live=rng.chance(0.4) and src != 'matrix', pre=rng.pick([0.02, 0.1, 0.3]), at=rng.randint(0, 1500), seed=rng.randint(0, 1 << 40))
    def simplify(self, case):
        yield from super().simplify(case)
        for i, d in enumerate(case['derive']):
            for k in ('int', 'h', 'steady'):
                if d.get(k):
                    c = json_copy(case); c['derive'][i].pop(k); yield c
            for j, q in enumerate(d['steps']):
                c = json_copy(case); del c['derive'][i]['steps'][j]; yield c
                if q.get('fault'): c = json_copy(case); del c['derive'][i]['steps'][j]['fault']; yield c
    def source(self, case):
        dm = self.dm; s = case['o']['s']
        if case['src'] != 'matrix': return mods.build_model(dm, s, aux=True), None
        m = dm.model.LinearModel(s['type'])
        for f in ('_x', '_u'):
            for n, k in mods.NAMES[f](s): m.set_variable(f, n, (k, 1) if k > 1 else (1, 1))
        A, B, C, D = matrices(s, [0.0] * s['nx'], [0.0] * s['nu'], [0.0, 0.0], [])
        if case['C'] != 'given': C, D = np.eye(s['nx']), np.zeros((s['nx'], s['nu']))
        if case['C'] == 'full': C = C[::-1] + 0.5
        if case['C'] == 'unit': C = C + np.triu(0.4 * np.ones(C.shape), 1)
        g = 0.3 * np.arange(1, 1 + D.size).reshape(D.shape)
        D = np.zeros(D.shape) if not case['D'] else D + g if case['D'] == 1 or len(D) < 2 else np.round(np.sign(g - g.mean(axis=0)))
        if case['sing'] and typ_discrete(s): A[:, -1] = 0.0
        kw = {}
        if case['C'] != 'none': kw['C'] = C.copy()
        if case['D']: kw['D'] = D.copy()
        m.setup(A.copy(), B.copy(), **kw)
        return m, (A, B, C, D)
    def derive(self, case, m, d, M):
        """the derived models of one request, and what they have to be"""
        import casadi as ca
        dm = self.dm; s = case['o']['s']; out = []
        with contextlib.redirect_stdout(io.StringIO()):
            if case['src'] == 'dae': return [('dae2odeconversion', dm.model.dae2odeconversion(m), None)]
            typ = s['type']
            if case['src'] == 'nonlin':
                a = lambda v, st: np.array(v, float).reshape(-1, 1) if d['how'] == 'np' else ca.DM(v) if d['how'] == 'dm' else st(ca.DM(v))
                t, p = d['t'][:s['nt']], d['p']
                L = dm.model.linearize(m, a(d['xss'], m._x), a(d['uss'], m._u), **({'tvp0': a(t, m._tvp)} if t else {}), **({'p0': a(p, m._p)} if p else {}))
                M = matrices(s, d['xss'], d['uss'], t, p); out.append(('linearize', L, M, typ))
            else:
                L = m; out.append(('LinearModel', L, M, typ))
                if case['relin']: L = dm.model.linearize(m); out.append(('linearize(LinearModel)', L, M, typ))
            if d.get('h'): out.append(('discretize(%g, %s)' % (d['h'], d['method']), L.discretize(d['h'], d['method']), sampled(*M, float(d['h']), d['method']), 'discrete'))
        return out
    def run(self, case, out):
        from . import cl3
        pid = self.pid; o = case['o']; s = o['s']; dm = self.dm; P = cl3.Plain(out); self.out = out; self.nst = 0; nint = 0
        ref = None if case['src'] == 'matrix' else cl2.run_loop(dm, case, lambda i, fn: fn())
        m, M = self.source(case); F = cl3.facts(m, [[0.1, -0.2, 0.3, 0.1]]); got = []; live = None
        def one(d, interrupts=True):
            if d.get('int') and interrupts:
                r = P.call(lambda: self.derive(case, m, d, M), {'k': 'int', 'n': d['int']})
                if r[0] == 'ok': return r[1]
                if not isinstance(r[1], KeyboardInterrupt): raise r[1]
            return self.derive(case, m, d, M)
        try:
            if case['live']:
                plan = case.get('plan'); box = {'n': 0}; wait = []
                sim = sched.Sim(rng=None if plan else Rng(case['seed'], 'c19'), plan=plan.get('sched', []) if plan else None, preempt_p=case['pre'], max_lines=3_000_000)
                def on_line(t, site):
                    if t is box.get('main'):
                        box['n'] += 1
                        if wait and box['n'] >= case['at']: sim.wake(wait.pop())
                sim.on_line = on_line
                def other():
                    t = sched.cur_thread()
                    if box.get('main') is not None: wait.append(t); sim.block()
                    box['live'] = box.get('main') is not None
                    box['d'] = one(case['derive'][0], False)
                def main():
                    sim.spawn(other, 'other'); box['main'] = sched.cur_thread()
                    box['A'] = cl2.run_loop(dm, case, lambda i, fn: fn(), model=m); box['main'] = None
                    while wait: sim.wake(wait.pop())
                sim.run(main); out.rec = {'sched': sim.dev}
                if sim.thread_excs: raise sim.thread_excs[0][1]
                if sim.aborting: raise Harness('aborted: %s' % sim.aborting)
                live = box['A']; got.append((case['derive'][0], box['d'])); out.faults['concurrent steps'] += bool(box['live']); out.log(sim.dev)
            for d in case['derive'][len(got):]: got.append((d, one(d)))
        except Harness: raise
        except Exception as e:
            import traceback
            out.violation(pid, 'failed', 'deriving a model failed: %s' % ''.join(traceback.format_exception(e)[-3:])[-700:]); return
        q = cl3.differs(F, cl3.facts(m, [[0.1, -0.2, 0.3, 0.1]]))
        if q: out.violation(pid, 'original', 'after models were derived from it, the original has %s' % q); return
        if ref is not None:
            for w, B in (('while a model was derived from it', live), ('after models were derived from it', cl2.run_loop(dm, case, lambda i, fn: fn(), model=m))):
                if B is None: continue
                k, q = cl2.compare(ref, B, 1e-9)
                if q: out.violation(pid, 'behaviour', 'a loop with the original model %s: %s' % (w, q)); return
        nm = 0
        for d, ms in got:
            for q in ms:
                nm += 1
                if q[2] is None:
                    if not self.ode(case, q[1], d): return
                    continue
                what, L, W, typ = q
                if not self.labels(case, m, L, what): return
                for k, a, b in zip('ABCD', (L.sys_A, L.sys_B, L.sys_C, L.sys_D), W):
                    if not close(np.asarray(a, float), b, 1e-8): out.violation(pid, 'matrix', '%s: matrix %s is %s, expected %s' % (what, k, sh(a), sh(b))); return
                if typ != L.model_type: out.violation(pid, 'type', '%s: a %s model' % (what, L.model_type)); return
                if d['use'] in ('sim', 'both') and not self.simulate(case, L, W, typ, d, what): return
                if d['use'] in ('lqr', 'both') and typ == 'discrete' and not self.control(case, L, W, d, what): return
                if d['steady'] and typ == 'discrete' and not self.steady(L, W, d, what): return
        out.stats['derived models'] += nm; out.stats['steps'] += self.nst; out.sim_time = self.nst * s['tstep']
        out.nontrivial = nm >= 2 and self.nst >= 3 and (bool(live) or out.faults.get('int', 0) > 0); out.summary = '%s: %d models, %d steps' % (case['src'], nm, self.nst)
    def labels(self, case, m, L, what):
        for f in ('x', 'u', 'p', 'tvp', 'aux'):
            a, b = getattr(m, f), getattr(L, f)
            if a.keys() != b.keys() or [str(q) for q in a.labels()] != [str(q) for q in b.labels()]: self.out.violation(self.pid, 'names', '%s: %s are %s, originally %s' % (what, f, b.labels(), a.labels())); return False
        return True
    def newsim(self, case, L, h):
        s = case['o']['s']; sim = self.dm.simulator.Simulator(L); sim.settings.t_step = h
        if L.n_tvp: t = sim.get_tvp_template(); sim.set_tvp_fun(lambda n: [t.__setitem__(mods.el(s, '_tvp', i), v) for i, v in enumerate(mods.tvp_at(s, case['o']['sig'], 0.0))] and t)
        if L.n_p: p = sim.get_p_template(); sim.set_p_fun(lambda n: [p.__setitem__(mods.el(s, '_p', i), v) for i, v in enumerate(mods.p_at(s, case['o']['sig'], 0.0))] and p)
        sim.setup(); return sim
    def steps(self, case, sim, d, x, nxt, what, arg=lambda q: q['u'], noise=lambda q: None):
        """steps with faults: every completed one is the model's, failed ones change nothing"""
        from . import cl3
        pid = self.pid; out = self.out; P = cl3.Plain(out); xs = []
        for i, q in enumerate(d['steps']):
            f = q.get('fault'); xs.append(x.copy())
            for turn in (0, 1):
                u = np.array(arg(q), float).reshape(-1, 1)
                w = noise(q); kw = {} if w is None else {'w0': w}
                r = P.call(lambda: sim.make_step(bad_value(f['b'], len(u)) if f and f['k'] == 'bad-u' and not turn else u, **kw), f if not turn else None)
                if r[0] == 'ok': break
                if turn or not f or not (P.last.fired or f['k'] == 'bad-u'): out.violation(pid, 'spurious-error', '%s: step %d raised %r' % (what, i, r[1])); return False
                if not close(flat(sim.x0), x, 0): out.violation(pid, 'state', '%s: failed step %d changed the state to %s' % (what, i, sh(sim.x0))); return False
            if f and f['k'] == 'bad-u' and not turn: out.violation(pid, 'bad-accepted', '%s: step %d accepted an input of wrong type or shape (%s)' % (what, i, f['b'])); return False
            self.cur = q; x, y = nxt(x, np.array(arg(q), float)); self.nst += 1
            if not close(flat(sim.x0), x, 1e-5): out.violation(pid, 'trajectory', '%s: state %s after step %d, expected %s' % (what, sh(flat(sim.x0)), i, sh(x))); return False
            if not close(flat(r[1]), y, 1e-5): out.violation(pid, 'measurement', '%s: measurement %s of step %d, expected %s' % (what, sh(r[1]), i, sh(y))); return False
            x = flat(sim.x0).copy(); out.log(np.round(x, 5).tolist())
        R = np.asarray(sim.data['_x'], float)
        if not close(R, np.array(xs).reshape(len(xs), len(x)), 1e-5): out.violation(pid, 'records', '%s: recorded states %s, expected %s' % (what, sh(R), sh(xs))); return False
        return True
    def simulate(self, case, L, W, typ, d, what):
        A, B, C, D = W; h = float(d.get('h') or case['o']['s']['tstep']) if typ == 'discrete' else case['o']['s']['tstep']
        Ad, Bd = (A, B) if typ == 'discrete' else sampled(A, B, C, D, h, 'zoh')[:2]
        sim = self.newsim(case, L, h); x = np.array(d['init']['x'], float); sim.x0 = x.reshape(-1, 1)
        def nxt(x, u): xn = Ad @ x + Bd @ u; return xn, C @ xn + D @ u
        return self.steps(case, sim, d, x, nxt, 'simulation with ' + what)
    def control(self, case, L, W, d, what):
        c = dict(d['lqr']); s = case['o']['s']; nx, nu = s['nx'], s['nu']; pid = self.pid; out = self.out
        pad = lambda v, n: (list(v) * 3)[:n] if v else None
        c.update(nx=nx, nu=nu, A=W[0].tolist(), B=W[1].tolist(), Q=pad(c['Q'], nx), R=pad(c['R'], nu), P=pad(c['P'], nx), dR=pad(c['dR'], nu), tstep=float(d.get('h') or s['tstep']))
        if np.abs(np.linalg.eigvals(W[0])).max() > 0.98: return True           # possibly not stabilisable
        LL = LqrLoop(self.dm, c, out, model=L); x = np.array(d['init']['x'], float)
        for i, q in enumerate(d['steps']):
            if i == 1: LL.do({'op': 'set', 'xss': d['xss'], 'uss': d['uss']})
            r, e = LL.do({'op': 'step', 'x': x.tolist(), 'how': d['how']})
            if r[0] == 'err': out.violation(pid, 'spurious-error', 'LQR with %s: %r' % (what, r[1])); return False
            if not close(flat(r[1]), flat(e), 1e-5): out.violation(pid, 'feedback', 'LQR with %s: input %s at step %d, the optimal feedback gives %s' % (what, sh(r[1]), i, sh(e))); return False
            x = W[0] @ x + W[1] @ flat(e); self.nst += 1; out.log(np.round(flat(e), 5).tolist())
        return True
    def steady(self, L, W, d, what):
        A, B = W[:2]; I = np.eye(len(A)); pid = self.pid; out = self.out; u = np.array(d['uss'], float).reshape(-1, 1); x = np.array(d['xss'], float).reshape(-1, 1)
        if np.linalg.cond(I - A) < 1e6:
            r = L.get_steady_state(uss=u.copy())
            if not close(np.asarray(r, float).reshape(-1), np.linalg.solve(I - A, B @ u).reshape(-1), 1e-6): out.violation(pid, 'steady-state', '%s: steady state %s for the input %s' % (what, sh(r), sh(u))); return False
        sb = np.linalg.svd(B, compute_uv=False)
        if sb[-1] > 1e-3 * sb[0]:
            r = L.get_steady_state(xss=x.copy())
            if not close(np.asarray(r, float).reshape(-1), np.linalg.lstsq(B, (I - A) @ x, rcond=None)[0].reshape(-1), 1e-6): out.violation(pid, 'steady-state', '%s: steady input %s for the state %s' % (what, sh(r), sh(x))); return False
        out.stats['steady states'] += 1
        return True
    def ode(self, case, L, d):
        o = case['o']; s = o['s']; pid = self.pid; t, p = mods.tvp_at(s, o['sig'], 0.0), mods.p_at(s, o['sig'], 0.0); nx, nu = s['nx'], s['nu']; what = 'dae2odeconversion'
        want = [n for f in ('_x', '_u', '_z') for n, k in mods.NAMES[f](s)]
        if list(L.x.keys()) != want: self.out.violation(pid, 'names', '%s: states are %s, expected %s' % (what, L.x.keys(), want)); return False
        if L.n_u != nu: self.out.violation(pid, 'names', '%s: %d inputs for %d rates' % (what, L.n_u, nu)); return False
        sim = self.newsim(case, L, s['tstep']); x0, u0 = np.array(d['init']['x'], float), np.array(d['init']['u'], float)
        full = lambda x, u: np.concatenate([x, u, mods.solve_z(s, x, u, t, p).reshape(-1)])
        # the process noise of the original states, by the name of the state
        wi = mods.w_index(s); names = ['%s_noise' % mods.el(s, '_x', i)[0] for i in range(nx)]
        if sorted(k for k in L.w.keys() if k != 'default') != sorted({names[i] for i in range(nx) if wi[i] is not None}): self.out.violation(pid, 'names', '%s: process noise %s' % (what, L.w.keys())); return False
        def wvec(): q = self.cur.get('w') or [0.0] * nx; w = [0.0] * mods.n_w(s); [w.__setitem__(wi[i], q[i]) for i in range(nx) if wi[i] is not None]; return w
        def noise(q): return np.array([q['w'][i] for k in L.w.keys() for i in range(nx) if names[i] == k and wi[i] is not None], float).reshape(-1, 1) if q.get('w') and mods.n_w(s) else None
        def F(x, u): return mods.rhs(s, mods.NP, x, u, mods.solve_z(s, x, u, t, p).reshape(-1), t, p, wvec()).reshape(-1)
        def nxt(v, q):
            x, u = v[:nx], v[nx:nx + nu]; n = max(8, int(np.ceil(s['tstep'] / 0.02))); h = s['tstep'] / n
            for _ in range(n):
                k1 = F(x, u); k2 = F(x + h / 2 * k1, u + h / 2 * q); k3 = F(x + h / 2 * k2, u + h / 2 * q); k4 = F(x + h * k3, u + h * q)
                x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4); u = u + h * q
            v = full(x, u); return v, v
        v = full(x0, u0); sim.x0 = v.reshape(-1, 1)
        return self.steps(case, sim, d, v, nxt, 'simulation with ' + what, noise=noise)

def json_copy(c):
    import json
    return json.loads(json.dumps(c))
def make(pid): return globals()[pid]()
