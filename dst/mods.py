"""Random small models: one JSON description, evaluated both as a do_mpc model and (independently) with plain numpy / casadi expressions."""
import weakref
import numpy as np

class NP:
    tanh = staticmethod(np.tanh); sin = staticmethod(np.sin)
    @staticmethod
    def col(v): return np.array([float(x) for x in v]).reshape(-1, 1)

class CA:
    @staticmethod
    def tanh(x):
        import casadi; return casadi.tanh(x)
    @staticmethod
    def sin(x):
        import casadi; return casadi.sin(x)
    @staticmethod
    def col(v):
        import casadi; return casadi.vertcat(*v) if len(v) else casadi.DM.zeros(0, 1)

def gen_spec(rng, typ=None, nz=None, nonlin=None, nw=None, nv=None, npar=None, ntvp=None, nx=None, nu=None, auto=0.0):
    typ = typ or rng.pick(['discrete', 'discrete', 'continuous'])
    nx = nx or rng.pick([1, 2, 2, 3]); nu = nu or rng.pick([1, 1, 2])
    nz = rng.pick([0, 0, 1]) if nz is None else nz
    npar = rng.pick([0, 1, 2]) if npar is None else npar
    ntvp = rng.pick([0, 1]) if ntvp is None else ntvp
    nl = (rng.chance(0.4) if nonlin is None else nonlin)
    A = [[rng.fl(-1, 1, 3) for _ in range(nx)] for _ in range(nx)]
    r = max(1e-9, max(sum(abs(a) for a in row) for row in A))
    if typ == 'discrete':
        sc = rng.fl(0.5, 0.9, 3) / r
        A = [[round(a * sc, 4) for a in row] for row in A]
    else:
        A = [[round(A[i][j] * 0.4 / r, 4) - (rng.fl(0.5, 1.2, 3) if i == j else 0) for j in range(nx)] for i in range(nx)]
    B = [[rng.fl(-1, 1, 3) for _ in range(nu)] for _ in range(nx)]
    for i in range(min(nx, nu)): B[i][i] = rng.pick([0.6, 0.8, 1.0, -0.7])
    s = dict(type=typ, nx=nx, nu=nu, nz=nz, np=npar, nt=ntvp, A=A, B=B, tstep=rng.pick([0.1, 0.25, 0.5, 1.0]) if typ == 'continuous' else rng.pick([1, 0.5, 1.0, 0.1, 0.3]),
             cp=[rng.fl(-0.2, 0.2, 3) for _ in range(nx)], e=[rng.fl(-0.5, 0.5, 3) for _ in range(nx)],
             s=[rng.fl(-0.08, 0.08, 3) if nl else 0.0 for _ in range(nx)], d=[rng.fl(-0.2, 0.2, 3) for _ in range(nx)],
             g=[rng.fl(-0.6, 0.6, 3) for _ in range(nx)], h=[rng.fl(-0.3, 0.3, 3) for _ in range(nu)], znl=rng.pick([0.0, 0.3]) if nl else 0.0, zt=rng.pick([0.0, 0.4]),
             w=rng.chance(0.5) if nw is None else bool(nw), v=rng.chance(0.5) if nv is None else bool(nv),
             vec=rng.chance(0.5), sym=rng.pick(['SX', 'SX', 'MX']), cz=rng.pick([0.0, 0.5]), cu=rng.pick([0.0, 0.3]), meas=rng.pick(['full', 'full', 'part', 'default']))
    # vector-valued inputs, parameters, time-varying parameters and algebraic states; second ones of the latter two
    s['uvec'] = rng.chance(0.4); s['pvec'] = rng.chance(0.35); s['tvec'] = rng.chance(0.5); s['zvec'] = rng.chance(0.5)
    if s['nt'] == 1 and rng.chance(0.45): s['nt'] = 2
    if s['nz'] == 1 and rng.chance(0.35): s['nz'] = 2
    # noise on some of the states and measurements only, right-hand sides given in another order than the states
    if rng.chance(0.3): s['wm'] = [rng.chance(0.5) for _ in range(nx)]
    if rng.chance(0.3): s['vm'] = [rng.chance(0.5) for _ in range(nx)]
    if rng.chance(0.3): s['ro'] = rng.randint(0, 5)
    # a second auxiliary expression, of all kinds of variables
    if rng.chance(0.4): s['ax2'] = rng.pick([1, 2]); s['axo'] = rng.chance(0.4)
    if auto and rng.chance(auto): s.update(nu=0, B=[[] for _ in range(nx)], h=[])      # an autonomous system
    return s

def alg(s, L, x, u, z, t, p):
    if not s['nz']: return L.col([])
    r = z[0] + s['znl'] * L.tanh(z[0])
    for i in range(s['nx']): r = r - s['g'][i] * x[i]
    for i in range(s['nu']): r = r - s['h'][i] * u[i]
    if s['nt']: r = r - s['zt'] * t[0]
    if s['nz'] == 1: return L.col([r])
    return L.col([r, z[1] + 0.3 * z[0] - 0.4 * x[0] + 0.25 * (u[-1] if s['nu'] else 0.0)])

def rhs(s, L, x, u, z, t, p, w):
    out = []; wi = w_index(s) if s['w'] else None
    for i in range(s['nx']):
        r = 0.0
        for j in range(s['nx']): r = r + s['A'][i][j] * x[j]
        for j in range(s['nu']):
            b = s['B'][i][j]
            r = r + (b * (1 + 0.5 * p[1]) * u[j] if s['np'] > 1 else b * u[j])
        if s['np']: r = r + p[0] * s['cp'][i] * (1 + x[i])
        if s['nt']: r = r + s['e'][i] * t[0]
        if s['nt'] > 1: r = r + 0.4 * s['e'][-1 - i] * t[1]
        if s['s'][i]: r = r + s['s'][i] * L.sin(2 * x[(i + 1) % s['nx']])
        if s['nz']: r = r + s['d'][i] * z[0]
        if s['nz'] > 1: r = r + 0.5 * s['d'][-1 - i] * z[1]
        if s.get('bil') and i == 0: r = r + s['bil'] * u[0] * (x[0] + 0.5 * u[0])
        if s['w'] and wi[i] is not None: r = r + w[wi[i]]
        out.append(r)
    return L.col(out)

def meas(s, L, x, u, z, t, p, v):
    """v is None when the measurements carry no noise"""
    if s['meas'] == 'default': return L.col([x[i] for i in range(s['nx'])])
    out = []; k = 0
    y = x[0] + s['cu'] * u[0] if s['nu'] else x[0]
    if s['nz']: y = y + s['cz'] * z[0]
    if s['np']: y = y + 0.2 * p[0]
    if s['nt']: y = y + 0.1 * t[0]
    vi = v_index(s)
    out.append(y + v[vi[0]] if vi[0] is not None else y)
    if s['meas'] == 'full':
        for i in range(1, s['nx']): out.append(x[i] + v[vi[i]] if vi[i] is not None else x[i])
    return L.col(out)

def aux2(s, x, u, z, t, p):
    a = 0.7 * x[0] * x[0]; b = 0.5 * x[-1]
    if s['nu']: a = a + 0.5 * u[-1] * x[-1]; b = b - 0.8 * u[0]
    if s['nz']: a = a + 0.6 * z[-1]; b = b + 0.9 * z[0]
    if s['nt']: a = a - 0.4 * t[-1]; b = b + 1.2 * t[0]
    if s['np']: a = a + 0.9 * p[-1]; b = b - 0.5 * p[0] * x[0]
    return [a, b][:s['ax2']]
def auxnames(s):
    r = [('ax', 1)] + ([('av', s['ax2'])] if s.get('ax2') else [])
    return r[::-1] if s.get('axo') else r
def auxvals(s, x, u, z, t, p):
    """the auxiliary expressions (with the one every model has)"""
    r = lambda a: np.asarray(a, float).reshape(-1)
    x, u, z, t, p = r(x), r(u), r(z), r(t), r(p); v = {'ax': [2 * x[0] + x[-1] ** 2]}
    if s.get('ax2'): v['av'] = aux2(s, x, u, z, t, p)
    return np.array([0.0] + [e for n, k in auxnames(s) for e in v[n]])

def n_y(s): return s['nx'] if s['meas'] in ('full', 'default') else 1
def n_v(s): return sum(i is not None for i in v_index(s))
def n_w(s): return sum(i is not None for i in w_index(s))
def rhs_order(s):
    """the states in the order in which their right-hand sides are given"""
    n = xnames(s); k = s.get('ro') or 0; n = n[k % len(n):] + n[:k % len(n)]
    return n[::-1] if k >= 3 else n
def w_index(s):
    """for each state the index of its process noise (None without): noise variables exist per state variable, in the order of the right-hand sides"""
    idx = [None] * s['nx']; off = {}; o = k = 0
    for n, c in xnames(s): off[n] = o; o += c
    if s['w']:
        for n, c in rhs_order(s):
            if w_noise(s, n):
                for j in range(c): idx[off[n] + j] = k; k += 1
    return idx
def w_noise(s, name):
    if not s['w']: return False
    m = s.get('wm'); names = [n for n, c in xnames(s)]
    if not m or not any(m[:len(names)]): return True
    return m[names.index(name)]
def v_index(s):
    """for each measurement the index of its noise (None without)"""
    n = n_y(s); m = s.get('vm')
    if s['meas'] == 'default' or not s['v']: return [None] * n
    m = [True] * n if not m or not any(m[:n]) else m[:n]
    return [sum(m[:i]) if m[i] else None for i in range(n)]

def xnames(s):
    """[(name, size)] in model order"""
    if s['vec'] and s['nx'] >= 2: return [('xv', 2)] + [('x%d' % i, 1) for i in range(2, s['nx'])]
    return [('x%d' % i, 1) for i in range(s['nx'])]
def unames(s): return [('uv', 2)] if s.get('uvec') and s['nu'] == 2 else [('u%d' % i, 1) for i in range(s['nu'])]
def pnames(s): return [('pv', 2)] if s.get('pvec') and s['np'] == 2 else [('p%d' % i, 1) for i in range(s['np'])]
def tnames(s): return [('tv', 2)] if s.get('tvec') and s['nt'] == 2 else [('tv', 1), ('tw', 1)][:s['nt']]
def znames(s): return [('zv', 2)] if s.get('zvec') and s['nz'] == 2 else [('z%d' % i, 1) for i in range(s['nz'])]
NAMES = {'_x': xnames, '_u': unames, '_p': pnames, '_tvp': tnames, '_z': znames}
def el(s, f, i):
    """power index of the i-th element of a field, e.g. ('u0',) or ('uv', 1)"""
    o = 0
    for n, k in NAMES[f](s):
        if o <= i < o + k: return (n,) if k == 1 else (n, i - o)
        o += k
def elems(s, f, st):
    """the scalar symbols of a structure"""
    return [st[n][i] for n, k in NAMES[f](s) for i in range(k)]
def by_name(s, f, vals):
    """[(name, value)] with one scalar or array per variable"""
    o = 0; r = []
    for n, k in NAMES[f](s):
        r.append((n, np.array(vals[o:o + k], float) if k > 1 else float(vals[o]))); o += k
    return r

HANDLES = weakref.WeakKeyDictionary()      # model -> what set_variable returned
def symbols(s, m, f, hd=False):
    """the scalar symbols of a field of a set-up model: m.x[...] or (hd) the objects set_variable returned"""
    if hd and m in HANDLES: return [HANDLES[m][f][n][i] for n, k in NAMES[f](s) for i in range(k)]
    return elems(s, f, getattr(m, f[1:]))

def build_model(dm, s, aux=True, meas_u=False):
    m = dm.model.Model(s['type'], s['sym'])
    H = HANDLES[m] = {}
    def new(f):
        H[f] = {n: m.set_variable(f, n, (k, 1) if k > 1 else (1, 1)) for n, k in NAMES[f](s)}
        return [H[f][n][i] for n, k in NAMES[f](s) for i in range(k)]
    X, U, Z, P, T = [new(f) for f in ('_x', '_u', '_z', '_p', '_tvp')]
    sw = dict(s, w=False); sv = dict(s, v=False)
    f = rhs(sw, CA, X, U, Z, T, P, None)
    if s['meas'] != 'default':
        y = meas(sv, CA, X, U, Z, T, P, None)
        vi = v_index(s)
        for i in range(n_y(s)): m.set_meas('ym%d' % i if i else 'ym', y[i], meas_noise=vi[i] is not None)
    if meas_u:
        import casadi; o = 0
        for n, k in unames(s): m.set_meas('um' + n[1:], casadi.vertcat(*U[o:o + k]), meas_noise=False); o += k
    for n, k in auxnames(s) if aux else []:
        if n == 'ax': m.set_expression('ax', 2.0 * X[0] + (X[-1] ** 2))
        else: e = aux2(s, X, U, Z, T, P); m.set_expression('av', CA.col(e) if k > 1 else e[0])
    o = 0
    R = {}
    for n, k in xnames(s): R[n] = f[o:o + k] if k > 1 else f[o]; o += k
    for n, k in rhs_order(s): m.set_rhs(n, R[n], process_noise=w_noise(s, n))
    if s['nz']: m.set_alg('az', alg(s, CA, X, U, Z, T, P))
    m.setup()
    return m

def solve_z(s, x, u, t, p):
    """the algebraic state, by Newton's method (the residual is strictly increasing)"""
    if not s['nz']: return np.zeros((0, 1))
    c = -float(alg(s, NP, x, u, [0.0, 0.0], t, p)[0, 0]); z = c
    for _ in range(60):
        r = z + s['znl'] * np.tanh(z) - c
        dz = r / (1 + s['znl'] * (1 - np.tanh(z) ** 2)); z -= dz
        if abs(dz) < 1e-15: break
    if s['nz'] == 1: return np.array([[z]])
    return np.array([[z], [-float(alg(s, NP, x, u, [z, 0.0], t, p)[1, 0])]])

def step(s, x, u, t, p, w):
    """exact (discrete) or finely integrated (continuous) successor and the algebraic state the measurement sees"""
    x = np.asarray(x, float).reshape(-1); u = np.asarray(u, float).reshape(-1); t = np.asarray(t, float).reshape(-1)
    p = np.asarray(p, float).reshape(-1); w = np.asarray(w, float).reshape(-1)
    if s['type'] == 'discrete':
        z = solve_z(s, x, u, t, p)
        return rhs(s, NP, x, u, z.reshape(-1), t, p, w), z
    def F(xx): return rhs(s, NP, xx, u, solve_z(s, xx, u, t, p).reshape(-1), t, p, w).reshape(-1)
    n = max(8, int(np.ceil(s['tstep'] / 0.02))); h = s['tstep'] / n
    for _ in range(n):
        k1 = F(x); k2 = F(x + h / 2 * k1); k3 = F(x + h / 2 * k2); k4 = F(x + h * k3)
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return x.reshape(-1, 1), solve_z(s, x, u, t, p)

def ymeas(s, x, u, z, t, p, v, meas_u=False):
    r = lambda a: np.asarray(a, float).reshape(-1)
    y = meas(s, NP, r(x), r(u), r(z), r(t), r(p), r(v))
    if meas_u: y = np.vstack([y, r(u).reshape(-1, 1)])
    return y

# deterministic parameter and time-varying parameter signals
def p_at(s, sig, t, k=0):
    """parameters at time t, variant k (scenario)"""
    out = []
    for i in range(s['np']):
        a, b = sig['p'][i]
        out.append(a + b * np.sin(0.7 * t + i) + 0.15 * k * (1 if i == 0 else -1))
    return out
def tvp_at(s, sig, t):
    if not s['nt']: return []
    a, b, c = sig['tv']
    return [a + b * np.sin(1.3 * t) + c * np.floor(t / 2.0 + 1e-9), 0.6 * a - 0.7 * b * np.cos(0.9 * t)][:s['nt']]
def gen_sig(rng, s):
    return dict(p=[[rng.fl(-0.5, 0.5, 3), rng.pick([0.0, rng.fl(-0.4, 0.4, 3)])] for _ in range(s['np'])],
                tv=[rng.fl(-0.5, 0.5, 3), rng.fl(-0.5, 0.5, 3), rng.pick([0.0, 0.3])])
