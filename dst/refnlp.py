"""Reference optimal control and estimation problems, formulated from the JSON description without any do-mpc code."""
import numpy as np, casadi as ca
from . import mods

def _nlpsol():
    f = ca.nlpsol
    return getattr(f, '_real', f)

def unstack(v, n): return [v[i] for i in range(n)]

def coll(deg, kind):
    tau = ca.collocation_points(deg, kind)
    C, D, _ = ca.collocation_coeff(tau)
    return tau, np.array(C), np.array(D).reshape(-1)

class Stage:
    """dynamics over one interval in unscaled variables: residuals for given start state, collocation states/alg states, end state"""
    def __init__(self, s, opt):
        self.s = s; self.disc = s['type'] == 'discrete'
        if self.disc: self.nc = 0; self.nzp = 1
        else:
            self.deg = opt['deg']; self.ni = opt['ni']; self.tau, self.C, self.D = coll(self.deg, opt.get('coll', 'radau'))
            self.nc = (self.deg + 1) * self.ni; self.nzp = self.nc
    def residual(self, x0, xc, z, u, tv, p, w, xe):
        """x0, xe: lists of nx scalars; xc: list of nc states [element boundaries and collocation points, last = end of the interval]; z: list of nzp"""
        s = self.s; L = mods.CA
        if self.disc:
            r = ca.vertsplit(mods.alg(s, L, x0, u, z[0], tv, p)) if s['nz'] else []
            f = mods.rhs(s, L, x0, u, z[0] if s['nz'] else [], tv, p, w)
            return r + [f[i] - xe[i] for i in range(s['nx'])]
        out = []; h = s['tstep'] / self.ni; k = 0; d1 = self.deg + 1
        xs = x0; kz = 0
        for i in range(self.ni):
            pts = [xs] + xc[k:k + self.deg]; k += self.deg
            for j in range(d1):
                if s['nz']: out += ca.vertsplit(mods.alg(s, L, pts[j], u, z[kz], tv, p))
                if j > 0:
                    f = mods.rhs(s, L, pts[j], u, z[kz] if s['nz'] else [], tv, p, w)
                    for a in range(s['nx']): out.append(h * f[a] - sum(pts[r][a] * self.C[r, j - 1] for r in range(d1)))
                kz += 1
            end = xc[k]; k += 1
            for a in range(s['nx']): out.append(end[a] - sum(pts[r][a] * self.D[r] for r in range(d1)))
            xs = end
        for a in range(s['nx']): out.append(xs[a] - xe[a])
        return out

class Vars:
    def __init__(self): self.sym = []; self.n = 0; self.idx = {}
    def new(self, key, n):
        v = ca.SX.sym(str(key).replace(' ', ''), n) if n else ca.SX(0, 1)
        self.sym.append(v); self.idx[key] = (self.n, n); self.n += n
        return [v[i] for i in range(n)]

class MpcRef:
    """c: dict with N, nr (robust horizon), nc (combinations), open_loop, single_slack, colloc bounds flags, cost weights, cons (nl constraints)"""
    def __init__(self, s, c):
        self.s = s; self.c = c; N = c['N']; nr = c['nr']; nb = c['ncomb']; st = self.st = Stage(s, c)
        V = self.V = Vars(); nx, nu, nz = s['nx'], s['nu'], s['nz']
        nsc = self.nsc = [nb ** min(k, nr) for k in range(N + 1)]
        par = ca.SX.sym('par', nx + nu + s['nt'] * (N + 1) + s['np'] * nb); o = 0
        x0p = [par[i] for i in range(nx)]; o = nx
        up = [par[o + i] for i in range(nu)]; o += nu
        T = []
        for k in range(N + 1): T.append([par[o + i] for i in range(s['nt'])]); o += s['nt']
        P = []
        for k in range(nb): P.append([par[o + i] for i in range(s['np'])]); o += s['np']
        self.par = par
        X = {(k, q): V.new(('x', k, q), nx) for k in range(N + 1) for q in range(nsc[k])}
        U = {(k, q): V.new(('u', k, q), nu) for k in range(N) for q in range(1 if c['open_loop'] else nsc[k])}
        XC = {}; Z = {}
        for k in range(N):
            for q in range(nsc[k + 1]):
                XC[k, q] = [V.new(('xc', k, q, j), nx) for j in range(st.nc)]
                Z[k, q] = [V.new(('z', k, q, j), nz) for j in range(st.nzp)]
        ne = 1 if c['single_slack'] else N
        nsoft = sum(1 for q in c['cons'] if q['soft'])
        E = {(k, q): V.new(('e', k, q), nsoft) for k in range(ne) for q in range(max(nsc[min(kk, N - 1)] for kk in ([k] if ne > 1 else range(N))))}
        g = []; glb = []; gub = []; f = 0.0; self.gname = []
        def eq(v, name):
            for e in v: g.append(e); glb.append(0.0); gub.append(0.0); self.gname.append(name)
        eq([X[0, 0][i] - x0p[i] for i in range(nx)], 'initial state')
        self.nlrows = []
        for k in range(N):
            fan = nb if k < nr else 1
            for q in range(nsc[k]):
                for b in range(fan):
                    ch = q * fan + b
                    cs = b if k < nr else (q % nb if nr > 0 else 0)
                    u = U[k, 0 if c['open_loop'] else q]; x = X[k, q]
                    eq(st.residual(x, XC[k, ch], Z[k, ch], u, T[k], P[cs], [0.0] * nx, X[k + 1, ch]), 'model at stage %d scenario %d' % (k, ch))
                    ke = min(k, ne - 1); e = E[ke, q]; ie = 0
                    npts = st.nc if (c['ncchk'] and st.nc) else 1
                    for ci, con in enumerate(c['cons']):
                      if con['soft']: f = f + con['pen'] * e[ie]
                      for mp in range(npts):
                        v = self.con(con, x if mp == 0 else XC[k, ch][mp - 1], u, Z[k, ch][mp] if nz else [], T[k], P[cs])
                        if con['soft']: v = v - e[ie]
                        g.append(v); glb.append(-np.inf); gub.append(con['ub']); self.gname.append('nonlinear constraint %d at stage %d' % (ci, k))
                      if con['soft']: ie += 1
                    wgt = 1.0 / nsc[k + 1]
                    f = f + wgt * self.lterm(x, u, Z[k, ch][-1] if nz else [], T[k], P[cs])
                    if k == N - 1: f = f + wgt * self.mterm(X[k + 1, ch], T[k + 1], P[cs])
                    prev = up if k == 0 else U[k - 1, 0 if c['open_loop'] else (q // nb if k <= nr else q)]
                    if c['rt'] == 'default':
                        for i in range(nu): f = f + c['R'][i] * ((u[i] - prev[i]) / c['us'][i]) ** 2
                    elif c['rt'] == 'fun':
                        for i in range(nu): f = f + c['R'][i] * (u[i] - prev[i]) ** 2
                        f = f + 0.1 * (u[0] - prev[0]) ** 4
        self.g = g; self.glb = np.array(glb); self.gub = np.array(gub); self.f = f
        x = ca.vertcat(*V.sym)
        self.gfun = ca.Function('g', [x, par], [ca.vertcat(*g), f])
        self.solver = _nlpsol()('ref', 'ipopt', {'x': x, 'f': f, 'g': ca.vertcat(*g), 'p': par},
                                {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0, 'ipopt.tol': 1e-10, 'ipopt.max_iter': 300})
    def con(self, con, x, u, z, t, p):
        v = sum(a * xi for a, xi in zip(con['a'], x)) + sum(b * ui for b, ui in zip(con['b'], u))
        if con.get('q'): v = v + con['q'] * x[0] ** 2
        if self.s['nz'] and con.get('z'): v = v + con['z'] * z[0]
        if self.s['nt'] and con.get('t'): v = v + con['t'] * t[0]
        if self.s['np'] and con.get('p'): v = v + con['p'] * p[0]
        return v
    def lterm(self, x, u, z, t, p):
        c = self.c; r = 0.0
        for i in range(self.s['nx']): r = r + c['Q'][i] * (x[i] - (c['ref'] * t[0] if (i == 0 and self.s['nt']) else 0.0) - c['xs'][i]) ** 2
        for i in range(self.s['nu']): r = r + c['Ru'][i] * u[i] ** 2
        if self.s['nz'] and self.s['type'] == 'discrete': r = r + 0.2 * z[0] ** 2
        if self.s['np']: r = r + c['lp'] * p[0] * x[0]
        return r
    def mterm(self, x, t, p):
        c = self.c; r = 0.0
        for i in range(self.s['nx']): r = r + c['Pm'][i] * (x[i] - (c['ref'] * t[0] if (i == 0 and self.s['nt']) else 0.0) - c['xs'][i]) ** 2
        if self.s['np']: r = r + c['lp'] * p[0] * x[-1]
        return r
    def params(self, x0, up, T, P):
        r = lambda a: np.asarray(a, float).reshape(-1)
        return np.concatenate([r(x0), r(up)] + [r(t) for t in T] + [r(p) for p in P])
    def bounds(self, B):
        """B: {'x':(lb,ub),'u':..,'z':..,'xt':(lb,ub)} unscaled lists"""
        c = self.c; N = c['N']; lb = -np.inf * np.ones(self.V.n); ub = np.inf * np.ones(self.V.n)
        softs = [q['maxv'] for q in c['cons'] if q['soft']]
        for key, (o, n) in self.V.idx.items():
            a = key[0]; k = key[1]; sl = slice(o, o + n)
            if n == 0: continue
            if a == 'x' and 1 <= k < N: lb[sl], ub[sl] = B['x']
            elif a == 'x' and k == N: lb[sl], ub[sl] = B['xt']
            elif a == 'xc' and c['cchk'] and k < N - 1: lb[sl], ub[sl] = B['x']
            elif a == 'u': lb[sl], ub[sl] = B['u']
            elif a == 'z' and (c['cchk'] or key[3] == 0): lb[sl], ub[sl] = [B['z'][0][:n], B['z'][1][:n]]
            elif a == 'e': lb[sl] = 0.0; ub[sl] = softs
        return lb, ub
    def name(self, i):
        for key, (o, n) in self.V.idx.items():
            if o <= i < o + n: return {'x': 'state', 'xc': 'collocation state', 'u': 'input', 'z': 'algebraic state', 'e': 'slack'}[key[0]] + ' %s[%d]' % (key[1:], i - o)
        return '?'
    def from_plan(self, get):
        """get(kind, *index) -> values of the plan"""
        v = np.zeros(self.V.n)
        for key, (o, n) in self.V.idx.items():
            if n: v[o:o + n] = get(*key)
        return v
    def solve(self, par, B, x0):
        lb, ub = self.bounds(B)
        r = self.solver(x0=x0, p=par, lbx=lb, ubx=ub, lbg=self.glb, ubg=self.gub)
        st = self.solver.stats()
        return np.array(r['x']).reshape(-1), float(r['f']), st['success'], st['return_status']

class MheRef:
    """moving-horizon estimation: c has N, deg, ni, cchk, ncchk, single_slack, Px, Pv, Pw, Pp, pe (indices of estimated parameters), cons"""
    def __init__(self, s, c):
        self.s = s; self.c = c; N = c['N']; st = self.st = Stage(s, c); V = self.V = Vars()
        nx, nu, nz = s['nx'], s['nu'], s['nz']; nw, nv, ny = mods.n_w(s), mods.n_v(s), mods.n_y(s) + nu
        pe = c['pe']; ps = [i for i in range(s['np']) if i not in pe]
        par = ca.SX.sym('par', nx + len(pe) + len(ps) + N * s['nt'] + N * ny); o = 0
        xprev = [par[i] for i in range(nx)]; o = nx
        pprev = [par[o + i] for i in range(len(pe))]; o += len(pe)
        pset = [par[o + i] for i in range(len(ps))]; o += len(ps)
        T = []
        for k in range(N): T.append([par[o + i] for i in range(s['nt'])]); o += s['nt']
        Y = []
        for k in range(N): Y.append([par[o + i] for i in range(ny)]); o += ny
        X = [V.new(('x', k), nx) for k in range(N + 1)]
        XC = [[V.new(('xc', k, j), nx) for j in range(st.nc)] for k in range(N)]
        Z = [[V.new(('z', k, j), nz) for j in range(st.nzp)] for k in range(N)]
        U = [V.new(('u', k), nu) for k in range(N)]
        W = [V.new(('w', k), nw) for k in range(N)]; VV = [V.new(('v', k), nv) for k in range(N)]
        ne = 1 if c['single_slack'] else N
        E = [V.new(('e', k), sum(1 for q in c['cons'] if q['soft'])) for k in range(ne)]
        pv = V.new(('p',), len(pe))
        P = [None] * s['np']
        for i, e in zip(pe, pv): P[i] = e
        for i, e in zip(ps, pset): P[i] = e
        g = []; glb = []; gub = []; self.gname = []; f = 0.0
        def eq(v, name):
            for e in v: g.append(e); glb.append(0.0); gub.append(0.0); self.gname.append(name)
        for i in range(nx): f = f + c['Px'][i] * (X[0][i] - xprev[i]) ** 2
        for i in range(len(pe)): f = f + c['Pp'][i] * (pv[i] - pprev[i]) ** 2
        for k in range(N):
            eq(st.residual(X[k], XC[k], Z[k], U[k], T[k], P, W[k] if nw else [0.0] * nx, X[k + 1]), 'model at window stage %d' % k)
            y = mods.meas(s, mods.CA, X[k + 1], U[k], Z[k][-1] if nz else [], T[k], P, VV[k] if nv else [0.0] * ny)
            yy = [y[i] for i in range(mods.n_y(s))] + U[k]
            eq([a - b for a, b in zip(yy, Y[k])], 'measurement %d of the window' % k)
            for i in range(nv): f = f + c['Pv'][i] * (1 + (c['tw'] * T[k][0] ** 2 if s['nt'] else 0.0)) * VV[k][i] ** 2
            for i in range(nw): f = f + c['Pw'][i] * (1 + (c['pw'] * P[0] ** 2 if s['np'] else 0.0)) * W[k][i] ** 2
            e = E[min(k, ne - 1)]; ie = 0; npts = st.nc if (c['ncchk'] and st.nc) else 1
            for ci, con in enumerate(c['cons']):
                if con['soft']: f = f + con['pen'] * e[ie]
                for mp in range(npts):
                    v = MpcRef.con(self, con, X[k] if mp == 0 else XC[k][mp - 1], U[k], Z[k][mp] if nz else [], T[k], P)
                    if con['soft']: v = v - e[ie]
                    g.append(v); glb.append(-np.inf); gub.append(con['ub']); self.gname.append('nonlinear constraint %d at window stage %d' % (ci, k))
                if con['soft']: ie += 1
        self.glb = np.array(glb); self.gub = np.array(gub)
        x = ca.vertcat(*V.sym)
        self.gfun = ca.Function('g', [x, par], [ca.vertcat(*g), f])
        self.solver = _nlpsol()('ref', 'ipopt', {'x': x, 'f': f, 'g': ca.vertcat(*g), 'p': par},
                                {'ipopt.print_level': 0, 'ipopt.sb': 'yes', 'print_time': 0, 'ipopt.tol': 1e-10, 'ipopt.max_iter': 300})
    def params(self, xprev, pprev, pset, T, Y):
        r = lambda a: np.asarray(a, float).reshape(-1)
        return np.concatenate([r(xprev), r(pprev), r(pset)] + [r(t) for t in T] + [r(y) for y in Y])
    def bounds(self, B):
        c = self.c; N = c['N']; lb = -np.inf * np.ones(self.V.n); ub = np.inf * np.ones(self.V.n)
        softs = [q['maxv'] for q in c['cons'] if q['soft']]
        for key, (o, n) in self.V.idx.items():
            sl = slice(o, o + n)
            if n == 0: continue
            a = key[0]
            if a == 'x': lb[sl], ub[sl] = B['x']
            elif a == 'xc' and c['cchk']: lb[sl], ub[sl] = B['x']
            elif a == 'u': lb[sl], ub[sl] = B['u']
            elif a == 'z' and (c['cchk'] or key[2] == 0): lb[sl], ub[sl] = [B['z'][0][:n], B['z'][1][:n]]
            elif a == 'p': lb[sl], ub[sl] = B['p']
            elif a == 'e': lb[sl] = 0.0; ub[sl] = softs
        return lb, ub
    def name(self, i):
        for key, (o, n) in self.V.idx.items():
            if o <= i < o + n: return {'x': 'state', 'xc': 'collocation state', 'u': 'input', 'z': 'algebraic state', 'e': 'slack', 'w': 'process noise', 'v': 'measurement noise', 'p': 'parameter'}[key[0]] + ' %s[%d]' % (key[1:], i - o)
        return '?'
    from_plan = MpcRef.from_plan
    solve = MpcRef.solve
