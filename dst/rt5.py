"""R05: namespaces of real RTBase clients on real RTServers over the simulated transport."""
import sys, io
from .runner import Check, Violation
from .rng import Rng
from . import load, sched, opcua_sim
from .faults import FaultSource
from .rt import URL

OWN = ['x_est', 'xs', 'tv', 'u_max', 'set point', 'user', 'aux2', 'X', 'p_est', 'yy', 'zz']        # object nodes of the user
TYPES = ['x', 'u', 'z', 'p', 'tvp', 'aux', 'y', 'w', 'v']

def build_model(spec):
    import casadi
    dm = load.load()
    m = dm.model.Model(spec['kind'])
    xs = []
    for t, name, shape in spec['vars']:
        if t in ('x', 'u', 'z', 'p', 'tvp'): 
            v = m.set_variable('_' + t, name, tuple(shape))
            if t == 'x': xs.append((name, v))
    e = casadi.sum1(casadi.vec(xs[0][1]))
    for t, name, shape in spec['vars']:
        if t == 'aux': m.set_expression(name, e * (1 + len(name)))
        if t == 'y': m.set_meas(name, casadi.repmat(e, shape[0], 1), meas_noise=bool(spec['noise']))
    for k, (name, v) in enumerate(xs): m.set_rhs(name, 0.5 * v, process_noise=bool(spec['noise']) and k == 0)
    zs = [(n, s) for t, n, s in spec['vars'] if t == 'z']
    for n, s in zs:
        m.set_alg('a_' + n, m.z[n] - e)
    m.setup()
    return m

class NamespaceCheck(Check):
    pid = 'R05'
    runs = {'quick': 2500, 'thorough': 100000}; cap = {'quick': 40, 'thorough': 900}
    batch = 40
    case_timeout = 40
    shrink_lists = [('ops',), ('models',)]
    real = ['do_mpc.opcua.RTServer', 'do_mpc.opcua.RTBase', 'do_mpc.opcua.RTClient', 'do_mpc.opcua.Namespace', 'do_mpc.model.Model']
    stub = ['asyncua (simulated address space and transport)', 'wrapped object (only model and settings.t_step are used)']
    assumptions = ['asyncua behaves as the simulated transport (calibrated against asyncua 2.1 over loopback)']
    rule = ('one run = one history of registrations, failing registrations, server starts, crashes and replacements, connects and verifications for 1-4 '
            'clients with random model layouts; non-trivial: at least one verification of a registered and connected client')

    def prepare(self): load.load()

    def gen(self, rng, idx, tier):
        models = []
        pool = ['x', 'y', 'T', 'c_a', 'default_flow', 'mydefault', 'p1', 'u', 'aux', 'x_0', 'Temp', 'm2', 'q', 'z1', 'k.s', 'A b']
        for i in range(rng.weighted([(1, 2), (2, 3), (3, 1), (4, 1)])):
            names = list(pool); rng.shuffle(names)
            vars_ = []
            for t in TYPES[:7]:
                for _ in range(rng.randint(1 if t == 'x' else 0, 3 if t == 'x' else 2)):
                    if not names: break
                    sh = [1, 1] if t == 'aux' else [rng.weighted([(1, 5), (2, 3), (3, 1), (11, .4)]), 1]
                    vars_.append([t, names.pop(), sh])
            models.append(dict(kind=rng.pick(['discrete', 'continuous']), vars=vars_, noise=int(rng.chance(.4)), name='%s%d' % (('cl', i) if rng.chance(.8) else rng.pick([('cl', 0), ('CL', 0), ('Cl ', i), ('cl', 10 * i)]))))
            if rng.chance(0.4): models[-1]['own'] = [[n, rng.randint(1, 2)] for n in rng.sample(OWN, rng.randint(1, 3))]; models[-1]['passed'] = rng.chance(0.5)
        ops = [['server']]
        for i in range(len(models)): ops.append(['register', i])
        rng.shuffle(ops)
        ops.sort(key=lambda o: o[0] != 'server')
        ops.append(['start'])
        for i in range(len(models)): ops += [['connect', i], ['verify', i]]
        for _ in range(rng.randint(0, 10)):
            k = rng.weighted([('crash', 2), ('stop', 1), ('replace', 4), ('register', 2), ('failreg', 1.5), ('connect', 3), ('verify', 4), ('restart', 1)])
            i = rng.randrange(len(models))
            if k == 'replace':                        # a new server takes over, everyone is registered again in a new order
                order = list(range(len(models))); rng.shuffle(order)
                ops += [[rng.pick(['crash', 'stop'])], ['server']]
                for j in order:
                    if rng.chance(.3): ops.append(['failreg', j, rng.randint(0, 6)]); 
                    if rng.chance(.95): ops.append(['register', j])
                ops += [['start']] + [['connect', j] for j in order] + [['verify', j] for j in order]
            elif k == 'failreg': ops.append([k, i, rng.randint(0, 6)])
            elif k in ('register', 'connect', 'verify'): ops.append([k, i])
            else: ops.append([k])
        return dict(seed=rng.getrandbits(48), models=models, ops=ops)

    def simplify(self, case):
        import copy
        for i, m in enumerate(case['models']):
            for k in range(len(m['vars'])):
                if m['vars'][k][0] == 'x' and sum(v[0] == 'x' for v in m['vars']) == 1: continue
                c = copy.deepcopy(case); del c['models'][i]['vars'][k]; yield c

    def run(self, case, out):
        dm = load.load(); O = dm.opcua
        sim = sched.Sim(rng=None)
        net = opcua_sim.Net(sim, None); opcua_sim.NET = net; opcua_sim.Client.count = 0
        old = sys.stdout; sys.stdout = io.StringIO()
        err = []
        try:
            models = [build_model(m) for m in case['models']]
            def main():
                try: self._main(case, out, O, models, net)
                except (sched.SimAbort, sched.SimKill): raise
                except BaseException as e: err.append(e)
            sim.run(main)
        finally:
            sys.stdout = old; opcua_sim.NET = None
        if err: raise err[0]
        out.log(sim.log); out.sim_time = sim.mono

    def _main(self, case, out, O, models, net):
        class Obj: pass
        rts = []
        for m, spec in zip(models, case['models']):
            o = Obj(); o.model = m; o.settings = Obj(); o.settings.t_step = 1.0
            rts.append(O.RTBase(o, O.ClientOpts(spec['name'], URL, 4840, 1)))
            own = [O.NamespaceEntry(n, '[e%d,%d]' % (j, j)) for n, k in spec.get('own', []) for j in range(k)]
            if own and spec.get('passed'): rts[-1] = O.RTBase(o, O.ClientOpts(spec['name'], URL, 4840, 1), O.Namespace(spec['name'], rts[-1].namespace.entry_list + own))
            else: rts[-1].namespace.entry_list.extend(own)
        V = lambda cls, msg: out.violation('R05', cls, msg)
        server = [None]; regd = {}; conn = {}; first = {}; nver = [0]
        def register(i):
            server[0].namespace_from_client(rts[i])
        for op in case['ops']:
            k = op[0]
            if k != 'server' and server[0] is None: continue
            if len(op) > 1 and op[1] >= len(rts): continue
            if k == 'server':
                if server[0] is not None and server[0].opcua_server.running: continue
                server[0] = O.RTServer(O.ServerOpts('srv', 'opc.tcp://localhost:4840', 4840)); regd = {}; dirty = set()
            elif k == 'register':
                i = op[1]
                if i in regd or server[0].opcua_server.dead: continue
                clash = any(case['models'][j]['name'] == case['models'][i]['name'] for j in list(regd) + sorted(dirty))
                try: register(i)
                except (sched.SimAbort, sched.SimKill): raise
                except Exception as e:
                    if not clash: raise
                    dirty.add(i); out.stats['refused'] += 1
                    continue
                if clash: dirty.add(i); continue
                regd[i] = True; out.stats['registrations'] += 1
            elif k == 'failreg':            # the server fails after op[2] nodes of this registration
                i = op[1]
                if i in regd or server[0].opcua_server.dead: continue
                left = [op[2]]
                real = opcua_sim.SrvNode.add_variable
                def failing(self, *a, **kw):
                    if left[0] == 0: raise opcua_sim._uaerr('BadOutOfMemory')
                    left[0] -= 1
                    return real(self, *a, **kw)
                opcua_sim.SrvNode.add_variable = failing
                try:
                    register(i)
                    if any(case['models'][j]['name'] == case['models'][i]['name'] for j in regd): dirty.add(i)
                    elif i not in dirty: regd[i] = True
                except (sched.SimAbort, sched.SimKill): raise
                except Exception as e:
                    dirty.add(i); out.faults['registration-fails'] += 1
                finally: opcua_sim.SrvNode.add_variable = real
                # the half registered names stay on that server: the client needs another server (handled by `dirty`)
            elif k in ('start', 'restart'):
                s = server[0].opcua_server
                if not s.running and not s.dead: server[0].start()
            elif k == 'crash':
                if server[0].opcua_server.running: server[0].opcua_server.crash(); out.faults['server-crash'] += 1
            elif k == 'stop':
                if server[0].opcua_server.running: server[0].stop(); out.faults['server-stop'] += 1
            elif k == 'connect':
                try: rts[op[1]].connect()
                except (sched.SimAbort, sched.SimKill): raise
                except ConnectionRefusedError: pass
            elif k == 'verify':
                i = op[1]
                if i in dirty or i not in regd or not server[0].opcua_server.running: continue
                c = rts[i].client.opcua_client.conn
                if c is None or c[0] is not server[0].opcua_server or c[1] != c[0].epoch: continue
                self._verify(i, rts, case, V, server[0].opcua_server, sorted(set(regd) - dirty), first); nver[0] += 1
        out.stats['verified'] += nver[0]
        out.nontrivial = nver[0] > 0
        out.summary = dict(verified=nver[0], clients=len(rts))
        out.cover.add('%d clients %d verified' % (len(rts), nver[0]))

    def _verify(self, i, rts, case, V, srv, regd, first):
        rt = rts[i]; spec = case['models'][i]
        val = 1.0 + 1000 * i
        all_ids = []; want = {}
        for t in TYPES:
            ids = rt.namespace[t]
            exp = []
            if t in ('w', 'v'):
                if t == 'v' and not any(v[0] == 'y' for v in spec['vars']): continue      # do-mpc's own measurements
                if not spec['noise']: exp = []
                else:
                    src = [v for v in spec['vars'] if v[0] == ('x' if t == 'w' else 'y')]
                    if t == 'w': src = src[:1]
                    exp = [(n + '_noise', j) for _, n, s in src for j in range(s[0] * s[1])]
            else:
                exp = [(n, j) for tt, n, s in spec['vars'] if tt == t for j in range(s[0] * s[1])]
                if t == 'y' and not exp: continue         # without measurements do-mpc defines some of its own
            if t in ('w', 'v'):                          # names of noise variables are do-mpc's choice
                if len(ids) != len(exp): V('incomplete', 'client %d: %d node ids for %d variables of type %s: %s' % (i, len(ids), len(exp), t, ids))
            else:
                if len(ids) != len(exp): V('incomplete', 'client %d: node ids %s for the variables %s of type %s' % (i, ids, exp, t)); continue
                for nid, (n, j) in zip(ids, exp):
                    tail = nid.split(';s=', 1)[-1]
                    if n not in tail or str(j) not in tail.replace(n, '', 1):
                        V('order', 'client %d: node id %s stands for element %d of %s (type %s): %s' % (i, nid, j, n, t, ids)); break
            for k, nid in enumerate(ids): all_ids.append((t, k, nid))
        for n, k in spec.get('own', []):
            ids = rt.namespace[n]
            if len(ids) != k or any('e%d' % j not in nid for j, nid in enumerate(ids)): V('own', 'client %d: node ids %s for the %d entries of the object node "%s" added by the user' % (i, ids, k, n))
            all_ids += [(n, j, nid) for j, nid in enumerate(ids)]
        ids = [x[2] for x in all_ids]
        if len(set(ids)) != len(ids): V('shared', 'client %d has the same node id twice: %s' % (i, sorted(ids)))
        form = [x.split(';s=', 1)[-1] for x in ids]
        if i not in first: first[i] = form
        elif first[i] != form: V('unstable', 'client %d: node ids %s after registering again, %s before' % (i, form[:6], first[i][:6]))
        for j in regd:
            if j == i: continue
            other = {nid for t in TYPES for nid in rts[j].namespace[t]}
            if other & set(ids): V('shared', 'clients %d and %d share the nodes %s' % (i, j, sorted(other & set(ids))))
        for n, nid in enumerate(ids):
            try: rt.client.writeData(nid, [val + n])
            except Exception as e: 
                if isinstance(e, (sched.SimAbort, sched.SimKill)): raise
                V('not-writable', 'client %d cannot write its node %s: %r' % (i, nid, e)); return
        for n, nid in enumerate(ids):
            try: got = rt.client.readData(nid)
            except Exception as e: V('not-readable', 'client %d cannot read its node %s: %r' % (i, nid, e)); return
            if got != [val + n]: V('shared', 'client %d: node %s holds %s instead of %s' % (i, nid, got, [val + n])); return
        # exactly one server variable per model variable
        mine = [k for k in srv.vars if srv.vars[k].value in [[val + n] for n in range(len(ids))]]
        if len(mine) != len(ids): V('duplicate', 'client %d: %d server variables for %d node ids' % (i, len(mine), len(ids)))
        x = rt.namespace['x']
        if any(nid not in ids for nid in x): return
        rt.set_read_tags(list(x)); got = rt.read_from_tags()
        exp = [[val + ids.index(nid)] for nid in x]
        if got.tolist() != exp: V('order', 'client %d: reading its states gave %s instead of %s' % (i, got.tolist(), exp))
