"""R01-R04: the real-time loop (RTBase/RTClient/RTServer) on simulated threads, clock and OPC UA transport."""
import sys, io, random
from .runner import Check, Outcome, Harness, in_domain
from .rng import Rng
from . import load, sched, opcua_sim
from .faults import FaultSource

URL = 'opc.tcp://localhost:4840/freeopcua/server/'
_models = {}

def model(n_in, n_out):
    dm = load.load()
    k = (n_in, n_out)
    if k not in _models:
        m = dm.model.Model('discrete')
        xs = m.set_variable('_x', 'x', (n_in, 1)); us = m.set_variable('_u', 'u', (n_out, 1))
        m.set_rhs('x', 0.5 * xs)
        m.setup()
        _models[k] = m
    return _models[k]

READ_FAULTS = [('drop', 2), ('refused', 2), ('timeout', 1), ('ua', 1), ('slow', 1, lambda r: r.fl(0.05, 3.0, 3))]
WRITE_FAULTS = READ_FAULTS + [('lost-reply', 1)]

class StepError(Exception):
    pass

class Stub:
    """stands for MPC / Simulator / LQR: records every call, takes virtual time, may fail"""
    def __init__(self, world, name, mdl, t_step, n_out, outtype, beh, default, const=0):
        self.const = const
        class S: pass
        self.settings = S(); self.settings.t_step = t_step
        self.model = mdl
        self.world = world; self.name = name; self.n_out = n_out; self.outtype = outtype
        self.beh = beh; self.default = default; self.calls = 0; self.inside = 0
    def make_step(self, x=None, *a, **k):
        w = self.world; sim = w.sim
        n = self.calls; self.calls += 1
        dur, fail = self.beh[n] if n < len(self.beh) else self.default
        import numpy as np
        val = None if x is None else np.array(x, dtype=float)
        self.inside += 1
        w.event('step-begin', self.name, n, None if val is None else (val.shape, val.flatten().tolist()))
        try:
            if self.inside > 1:
                w.out.violation('R01', 'overlap', 'make_step call %d of %s entered at t=%.4f while another one was in progress' % (n, self.name, sim.mono))
            else:
                w.out.cover.add('step')
            # half of the work before and half after a point where others may run
            if dur > 0: sim.sleep(dur)
            else: sim.point()
            if fail: raise StepError('injected failure in step %d' % n)
            # (const: the result, or some elements of it, repeat)
            o = [(0.0 if self.const == 1 or self.const == 2 and (n + i) % 3 else 1000.0 * (n + 1)) + 100000.0 * w.names.index(self.name) + i for i in range(self.n_out)]
            if self.const == 3: o = [-1e-7 * v + 0.1 + n / 3 for v in o]                                   # small values with all their digits
            if self.const == 4: o = [float('nan') if (n + i) % 4 == 1 else float('-inf') if (n + i) % 5 == 2 else v / 7 for i, v in enumerate(o)]
            w.event('step-end', self.name, n, o)
        except BaseException as e:
            w.event('step-fail', self.name, n, type(e).__name__)
            raise
        finally:
            self.inside -= 1
        import casadi
        if self.outtype == 'col': return np.array(o).reshape(-1, 1)
        if self.outtype == 'flat': return np.array(o)
        if self.outtype == 'dm': return casadi.DM(o)
        s = self.model._u(0); s.master = casadi.DM(o); return s

class World: pass

class RTCheck(Check):
    shrink_lists = [('chaos',), ('users', '*'), ('beh', '*')]
    batch = 25
    case_timeout = 40
    real = ['do_mpc.opcua.RTBase', 'do_mpc.opcua.RTClient', 'do_mpc.opcua.RTServer', 'do_mpc.opcua Namespace', 'do_mpc.model.Model',
            'stdlib threading.Timer/Thread/Event/Condition logic (executed on simulated locks and threads)']
    stub = ['asyncua (simulated transport and address space)', 'wrapped make_step (recording stub with virtual duration and failures)',
            'clock, timers, thread scheduling']
    assumptions = ['asyncua behaves as the simulated transport (calibrated against asyncua 2.1 over loopback)',
                   'threads are pre-empted between Python statements (in some runs: also between the calls within a statement)']
    rule = ('one run = one seeded history of start/stop/direct step/connect calls from 1-3 user threads over 1-2 RTBase objects with '
            'chaos (clock jumps, server loss), network faults, cycle durations/failures and a statement-level schedule; '
            'non-trivial: at least 3 cycles ran and at least one context switch was forced')

    def prepare(self):
        load.load()
        for a in (1, 2, 3):
            for b in (1, 2, 3): model(a, b)

    # ------------------------------------------------------------------ generation
    def gen(self, rng, idx, tier):
        focus = self.pid
        n_rt = rng.weighted([(1, 3), (2, 1)])
        cyc = rng.pick([0.5, 1.0, 2.0, 1.5])
        tu = rng.pick([1.0, 1.0, 60.0, 0.1])
        cfgs = []
        for i in range(n_rt):
            t_step = cyc if i == 0 or rng.chance(0.5) else rng.pick([0.5, 1.0, 2.0, 2.5])
            perm = rng.randint(1, 99) if rng.chance(.4) else 0
            cfgs.append(dict(perm=perm, n_in=rng.pick([1, 2, 3]), n_out=rng.pick([1, 2, 3]), t_step=t_step, tu=tu,
                             outtype=rng.pick(['col', 'col', 'flat', 'dm', 'struct']), const=rng.weighted([(0, 3), (1, 1), (2, 1), (3, 1.5), (4, .5)]),
                             dur=rng.pick([0.0, 0.01, 0.1, 0.3]) if rng.chance(.9) else 0.6))
        if n_rt == 2:                 # controller and plant exchange through the controller's namespace
            cfgs[1]['n_in'] = cfgs[0]['n_out']; cfgs[1]['n_out'] = cfgs[0]['n_in']
        period = cyc * tu
        nu = rng.weighted([(1, 4), (2, 3), (3, 1)])
        users = []
        hectic = rng.chance(0.3)                 # bursts without sleeping
        for u in range(nu):
            ops = []
            for _ in range(rng.randint(1, 9)):
                rt = rng.randrange(n_rt)
                k = rng.weighted([('start', 5), ('stop', 4), ('sleep', 6), ('step', 1.2 if focus in ('R01', 'R04') else 0.4), ('connect', 0.8), ('setin', 1.5)])
                if k == 'sleep':
                    d = rng.pick([0.0, 0.001, 0.2, 0.5, 0.999, 1.0, 1.0, 1.001, 2.0, 2.5, 4.0]) * period
                    if hectic and rng.chance(0.6): d = 0.0
                    if rng.chance(0.3): d = rng.fl(0, 3 * period)
                    ops.append(['sleep', round(d, 6)])
                elif k == 'setin': ops.append(['setin', rt, rng.randrange(3), rng.fl(-9, 9)])
                else: ops.append([k, rt])
            users.append(ops)
        if focus == 'R03' and rng.chance(0.5):    # one owner, lifecycle unambiguous at the end
            users = [users[0] + [['start', 0], ['sleep', round(period * rng.pick([0.3, 1.0, 2.2, 5.0]), 6)]]]
        if focus == 'R02' and rng.chance(0.5):
            users[0] = [['start', 0], ['sleep', round(period * rng.pick([0.5, 1.0, 1.0, 2.0, 3.0]), 6)], ['stop', 0], ['sleep', round(period * 1.7, 6)]] + users[0][:5]
        chaos = []
        if rng.chance(0.45):
            for _ in range(rng.randint(1, 5)):
                k = rng.weighted([('jump', 3), ('crash', 2), ('revive', 2), ('reconnect', 2)])
                chaos.append([rng.fl(0, 2.5 * period), k, rng.pick([3600.0, -3600.0, 0.5, -0.5, 86400.0, -30.0]) if k == 'jump' else 0])
        beh = []
        for i in range(n_rt):
            b = []
            if rng.chance(0.6):
                for _ in range(rng.randint(1, 12)):
                    dur = rng.weighted([(cfgs[i]['dur'], 4), (0.9, 1), (1.0, 1), (1.5, 1), (2.7, 1), (0.0, 1)]) * cfgs[i]['t_step'] * tu
                    b.append([round(dur, 6), int(rng.chance(0.15))])
            beh.append(b)
        sch = dict(preempt_p=rng.pick([0.0, 0.02, 0.1, 0.3]), stall_p=rng.pick([0.0, 0.0, 0.1, 0.3, 0.6]), stall_max=round(period * rng.pick([0.1, 1.2, 3.0]), 4),
                   opcodes=int(rng.chance(0.3)))
        return dict(seed=rng.getrandbits(48), cfgs=cfgs, users=users, chaos=chaos, beh=beh, sched=sch,
                    netp=rng.pick([0, 0, 0.02, 0.1, 0.25]) if focus != 'R04' else rng.pick([0, 0.02, 0.1, 0.25, 0.4]), latency=rng.pick([0.0, 0.0, 0.01]) * period)

    def simplify(self, case):
        import copy
        def v(f):
            c = copy.deepcopy(case); f(c); return c
        if 'plan' not in case:
            yield v(lambda c: c['sched'].update(stall_p=0.0))
            yield v(lambda c: c['sched'].update(preempt_p=0.0))
            yield v(lambda c: c.update(netp=0))
        yield v(lambda c: c['sched'].update(opcodes=0))
        yield v(lambda c: c.update(latency=0.0))
        for i, cf in enumerate(case['cfgs']):
            yield v(lambda c: c['cfgs'][i].update(outtype='col'))
            yield v(lambda c: c['cfgs'][i].update(dur=0.01))
            if len(case['cfgs']) == 1:
                yield v(lambda c: c['cfgs'][i].update(n_in=1)); yield v(lambda c: c['cfgs'][i].update(n_out=1))
        if len(case['users']) > 1:
            for k in range(len(case['users'])): yield v(lambda c: c['users'].pop(k))
        if len(case['cfgs']) > 1 and all(not (len(o) > 1 and o[0] != 'sleep' and o[1] == 1) for u in case['users'] for o in u):
            yield v(lambda c: (c['cfgs'].pop(1), c['beh'].pop(1)))
        for ui, u in enumerate(case['users']):
            for oi, o in enumerate(u):
                if o[0] == 'sleep' and o[1] > 0:
                    p = case['cfgs'][0]['t_step'] * case['cfgs'][0]['tu']
                    for d in (0.0, round(p, 6)):
                        if d < o[1]: yield v(lambda c: c['users'][ui].__setitem__(oi, ['sleep', d]))

    # ------------------------------------------------------------------ execution
    def run(self, case, out):
        dm = load.load()
        plan = case.get('plan') or {}
        rng = Rng(case['seed'])
        sc = case['sched']
        replay = 'plan' in case
        sim = sched.Sim(rng=None if replay else rng.sub('sched'), plan=plan.get('sched', []) if replay else None,
                        preempt_p=sc['preempt_p'], stall_p=sc['stall_p'], stall_max=sc['stall_max'], max_steps=400_000, max_lines=6_000_000)
        sim.fine = bool(sc['opcodes'])
        fs = FaultSource(None if replay else rng.sub('net'), case['netp'], {'read': READ_FAULTS, 'write': WRITE_FAULTS, 'connect': [('refused', 1)]},
                         plan=plan.get('net', []) if replay else None, budget=25)
        net = opcua_sim.Net(sim, fs); opcua_sim.NET = net; opcua_sim.Client.count = 0
        net.latency = case['latency']
        w = World(); w.sim = sim; w.out = out; w.net = net; w.names = ['rt%d' % i for i in range(len(case['cfgs']))]; w.case = case
        w.events = []; w.harness = set()
        w.clients = {}
        def event(*e):
            net.seq += 1
            t = sched.cur_thread()
            w.events.append((net.seq, sim.mono, t.id) + e); sim.ev(*e)
        w.event = event
        def onnet(e):
            w.events.append((e[0], sim.mono, e[1], 'net', e[2], e[3], e[4], e[5]))
            w.marks[e[0]] = sched.cur_thread().mark
        # when a thread first executes do-mpc code after having waited for a timer (a cycle is 'in progress' from then on)
        w.marks = {}
        def mark(t, site):
            if t.mark is None and not site.startswith(('threading.py', 'queue.py', 'sched.py', '_base.py:-')):
                net.seq += 1; t.mark = net.seq
        sim.on_line = mark
        net.on_event = onnet
        old = sys.stdout; sys.stdout = io.StringIO()
        try:
            sim.run(lambda: self._main(dm, case, w, out))
        finally:
            sys.stdout = old
            opcua_sim.NET = None
        if w.__dict__.get('err'): 
            e = w.err
            raise e
        if sim.aborting not in (None, 'end'):
            if sim.aborting in ('step-limit', 'line-limit', 'deadlock', 'time-limit'):
                out.violation('R03', 'stuck-' + sim.aborting, 'the real-time loop got stuck (%s) at t=%.3f' % (sim.aborting, sim.mono))
        analyse(case, w, out)
        out.log(sim.log)
        out.rec = {'sched': sim.dev, 'net': fs.rec}
        out.sim_time = sim.mono
        for k, v in fs.fired.items(): out.faults['net-' + k] += v
        out.faults['stall'] += sim.stalls
        for c in case['chaos']: out.faults['chaos-' + c[1]] += 1
        out.cover |= {'%s %s' % s for s in sim.sites}
        out.stats['cycles'] += w.n_cycles; out.stats['switches'] += sim.switches; out.stats['thread_exceptions'] += len(sim.thread_excs)
        out.nontrivial = w.n_cycles >= 3 and len(sim.dev) >= 1
        out.summary = dict(cycles=w.n_cycles, switches=sim.switches, t=sim.mono)
        # exceptions that escaped in do-mpc's own threads are only legitimate when something was injected
        return out

    def _main(self, dm, case, w, out):
        sim, net = w.sim, w.net
        w.harness.add(sched.cur_thread().id)
        O = dm.opcua
        sim.nopreempt = 1
        rts = []
        srv = O.RTServer(O.ServerOpts('srv', 'opc.tcp://localhost:4840', 4840))
        w.stubs = []
        for i, c in enumerate(case['cfgs']):
            mdl = model(c['n_in'], c['n_out'])
            stub = Stub(w, w.names[i], mdl, c['t_step'], c['n_out'], c['outtype'], case['beh'][i] if i < len(case['beh']) else [], (c['dur'] * c['t_step'] * c['tu'], 0), c.get('const', 0))
            rt = O.RTBase(stub, O.ClientOpts(w.names[i], URL, 4840, c['tu']))
            srv.namespace_from_client(rt); rts.append(rt); w.stubs.append(stub)
        srv.start()
        w.server = srv.opcua_server
        tags = []
        for i, rt in enumerate(rts):
            if i == 0: tin, tout = rt.namespace['x'], rt.namespace['u']
            else: tin, tout = rts[0].namespace['u'], rts[0].namespace['x']
            if case['cfgs'][i].get('perm'): pr = random.Random(case['cfgs'][i]['perm']); tin, tout = pr.sample(list(tin), len(tin)), pr.sample(list(tout), len(tout))
            rt.set_read_tags(list(tin)); rt.set_write_tags(list(tout)); tags.append((list(tin), list(tout)))
            rt.connect()
        w.tags = tags; w.rts = rts
        w.client_of = {rt.client.opcua_client.label: i for i, rt in enumerate(rts)}
        raw = opcua_sim.Client(URL); raw.label = 'raw'
        w.lifecycle = [[] for _ in rts]      # (inv seq, ret seq, 'start'/'stop', thread id)
        w.started = [False] * len(rts)
        sim.nopreempt = 0
        def call(kind, i, f):
            # sequence numbers taken directly around the call
            net.seq += 1; a = net.seq; ta = sim.mono
            ent = [a, None, kind, sched.cur_thread().id, ta, None]
            w.lifecycle[i].append(ent)
            try: f()
            finally:
                net.seq += 1; ent[1] = net.seq; ent[5] = sim.mono
                w.event(kind + '-return', w.names[i])
        def do(op):
            k = op[0]
            if k == 'sleep': sim.sleep(op[1]); return
            i = op[1]
            if i >= len(rts): return
            rt = rts[i]
            if k == 'start':
                w.started[i] = True
                w.event('start', w.names[i]); call('start', i, rt.async_step_start)
            elif k == 'stop':
                w.event('stop', w.names[i]); call('stop', i, rt.async_step_stop)
            elif k == 'step':
                w.event('direct', w.names[i])
                try: rt.make_step()
                except (sched.SimAbort, sched.SimKill): raise
                except StepError: pass
                except Exception as e: w.event('direct-exc', w.names[i], type(e).__name__, str(e)[:80])
            elif k == 'connect':
                try: rt.connect()
                except (sched.SimAbort, sched.SimKill): raise
                except Exception as e: w.event('connect-exc', type(e).__name__)
            elif k == 'setin':
                tin = tags[i][0]
                srvv = w.server.vars[opcua_sim._norm(tin[op[2] % len(tin)])]
                srvv.value = [op[3]]; w.event('setin', tin[op[2] % len(tin)], op[3])
        done = []; doneq = []
        def finished(n):
            done.append(n)
            if doneq: sim.wake(doneq[0])
        def user(n, ops):
            w.harness.add(sched.cur_thread().id)
            try:
                for op in ops: do(op)
            except (sched.SimAbort, sched.SimKill): raise
            except BaseException as e:
                w.err = e
                import traceback
                if in_domain(e.__traceback__):
                    out.violation('R03', 'lifecycle-exception', 'start/stop raised: ' + traceback.format_exc()[-900:]); w.err = None
                    w.event('user-exc', type(e).__name__)
            finally: finished(n)
        def chaos():
            w.harness.add(sched.cur_thread().id)
            try:
                for dt, k, arg in case['chaos']:
                    sim.sleep(dt)
                    if k == 'jump': sim.jump_wall(arg)
                    elif k == 'crash': w.server.crash()
                    elif k == 'revive':
                        if not w.server.running: w.server.start()
                    elif k == 'reconnect':
                        for rt in rts:
                            try: rt.connect()
                            except (sched.SimAbort, sched.SimKill): raise
                            except Exception: pass
            finally: finished('chaos')
        sim.spawn(chaos, 'chaos')
        for n, ops in enumerate(case['users']): sim.spawn(lambda n=n, ops=ops: user(n, ops), 'user%d' % n)
        want = len(case['users']) + 1
        while len(done) < want: sim.block(doneq)
        # ---------------------------------------------------------------- quiescence: no more faults
        try:
            self._tail(case, w, out, rts, do, sim, net)
        finally:
            sim._abort_all('end')

    def _tail(self, case, w, out, rts, do, sim, net):
        net.faults.enabled = False
        sim.stall_p = 0.0
        if sim.plan is not None: pass
        net.latency = 0.0
        for s in w.stubs: s.beh = []; s.default = (0.05 * s.settings.t_step * case['cfgs'][w.stubs.index(s)]['tu'], 0)
        if not w.server.running: w.server.start()
        for rt in rts: rt.connect()
        cyc = [c['t_step'] * c['tu'] for c in case['cfgs']]
        settle = 4 * max(cyc) + 8.0 + case['sched']['stall_max'] + sum(b[0] for bb in case['beh'] for b in bb) + 3.0
        sim.sleep(settle)
        w.event('tail')
        for i, rt in enumerate(rts):
            lc = w.lifecycle[i]
            owners = {e[3] for e in lc}
            definite = len(owners) == 1 and lc and lc[-1][2] == 'start'
            if not definite: do(['start', i])
            else: out.stats['tail_without_restart'] += 1
            k = 12
            w.event('window', w.names[i], 'running', cyc[i])
            sim.sleep((k + 0.5) * cyc[i])
            w.event('window-end', w.names[i])
            for _ in range(1 + case['seed'] % 2): do(['stop', i])
            w.event('window', w.names[i], 'stopped', cyc[i])
            sim.sleep(4 * cyc[i])
            w.event('window-end', w.names[i])
            w.event('window', w.names[i], 'fresh', cyc[i])
            for _ in range(1 + case['seed'] // 2 % 2): do(['start', i])
            sim.sleep(3.5 * cyc[i])
            w.event('window-end', w.names[i])
            do(['stop', i])
            sim.sleep(2 * cyc[i])

def analyse(case, w, out):
    """oracles over the recorded history"""
    names = w.names
    ev = sorted(w.events, key=lambda e: e[0])
    req = {}             # thread -> its last request
    cycles = {}          # thread -> open cycle
    allc = []
    rt_of_label = w.client_of if hasattr(w, 'client_of') else {}
    def close(th):
        c = cycles.pop(th, None)
        return c
    for e in ev:
        seq, t, th, kind = e[:4]
        if kind == 'net':
            what, label, node, val = e[4:8]
            if label not in rt_of_label: continue
            i = rt_of_label[label]
            base = what.split('-')[0]
            if what == 'req': req[th] = (seq, t)
            if base == 'read':
                c = cycles.get(th)
                if c is None or c['rt'] != i or c['phase'] != 'read' or (node in c['reads'] and c['failed_node'] != node):
                    c = dict(rt=i, phase='read', reads={}, failed_node=None, begin=req[th][0], t=req[th][1], th=th, out=None, writes=[], faulty=False, arg=None, n=None, end=seq)
                    cycles[th] = c; allc.append(c)
                c['end'] = seq
                if what == 'read': c['reads'][node] = val; c['failed_node'] = None
                else:
                    c['faulty'] = True; c['failed_node'] = node
                    c['reads'].pop(node, None)
                    if what == 'read-fault:slow': pass
            elif base == 'write':
                c = cycles.get(th)
                if c is None or c['rt'] != i or c['phase'] != 'write':
                    out.violation('R04', 'write-without-step', 'thread %d wrote %s=%s of %s although no step result was pending' % (th, node, val, names[i]))
                    continue
                c['end'] = seq
                if what == 'write': c['writes'].append((node, val))
                elif what != 'write-fault:slow':
                    c['faulty'] = True
                    if what == 'write-fault:lost-reply': pass
        elif kind == 'step-begin':
            i = names.index(e[4]); c = cycles.get(th)
            if c is None or c['rt'] != i or c['phase'] != 'read':
                out.violation('R04', 'step-without-read', 'make_step of %s was called without reading the input tags in the same cycle' % names[i])
                c = dict(rt=i, phase='read', reads={}, failed_node=None, begin=seq, t=t, th=th, out=None, writes=[], faulty=True, arg=None, n=None, end=seq)
                cycles[th] = c; allc.append(c)
            else:
                tin = w.tags[i][0]
                miss = [x for x in tin if x not in c['reads']]
                if miss:
                    out.violation('R04', 'step-on-missing-data', 'make_step of %s was called although the tags %s were not read successfully in this cycle' % (names[i], miss))
                else:
                    exp = [v for x in tin for v in c['reads'][x]]
                    sh, got = e[6] if e[6] else (None, None)
                    if [repr(float(v)) for v in got] != [repr(float(v)) for v in exp] or tuple(sh) != (len(exp), 1):
                        out.violation('R04', 'wrong-input', 'make_step of %s got %s (shape %s), the cycle read %s' % (names[i], got, sh, exp))
            c['phase'] = 'step'; c['n'] = e[5]; c['end'] = seq
        elif kind == 'step-end':
            c = cycles.get(th)
            if c: c['phase'] = 'write'; c['out'] = e[6]; c['end'] = seq
        elif kind == 'step-fail':
            c = cycles.get(th)
            if c: c['phase'] = 'failed'; c['faulty'] = True; c['end'] = seq
    w.n_cycles = len(allc)
    # ------------------------------------------------------------------ R04: what was written
    life = getattr(w, 'lifecycle', [])
    last_seq = ev[-1][0] if ev else 0
    open_end = {id(c) for c in cycles.values()}
    for c in allc:
        i = c['rt']; tout = w.tags[i][1]
        if c['out'] is None:
            if c['writes']: out.violation('R04', 'write-after-failure', 'a failed cycle of %s wrote %s' % (names[i], c['writes']))
            continue
        exp = list(zip(tout, [[v] for v in c['out']]))
        for node, val in c['writes']:
            if str((node, val)) not in list(map(str, exp)):
                out.violation('R04', 'wrong-output', 'cycle of %s with result %s wrote %s to %s (write tags %s)' % (names[i], c['out'], val, node, tout)); break
        if not c['faulty']:
            stopped = any(l[2] == 'stop' and l[0] <= c['end'] and (l[1] is None or l[1] >= c['begin']) for l in life[i])
            unfinished = id(c) in open_end
            if sorted(map(str, c['writes'])) != sorted(map(str, exp)) and not stopped and not unfinished:
                out.violation('R04', 'incomplete-output', 'cycle of %s with result %s wrote only %s' % (names[i], c['out'], c['writes']))
            elif unfinished and sorted(map(str, c['writes'])) != sorted(map(str, exp)) and c['end'] < last_seq - 400 and not stopped:
                out.violation('R04', 'incomplete-output', 'cycle of %s with result %s never wrote more than %s' % (names[i], c['out'], c['writes']))
    for e in ev:
        if e[3] == 'direct-exc':
            # a direct make_step raised although nothing was injected into its cycle
            th, seq = e[2], e[0]
            cs = [c for c in allc if c['th'] == th and c['begin'] < seq]
            c = cs[-1] if cs else None
            if c is None or not c['faulty']:
                out.violation('R04', 'spurious-failure', 'make_step raised %s(%s) although no operation of the cycle failed' % (e[5], e[6]))
    # ------------------------------------------------------------------ R02: nothing begins after a stop
    auto = [c for c in allc if c['th'] not in w.harness]
    for i, lc in enumerate(life):
        for l in lc:
            if l[2] != 'stop' or l[1] is None: continue
            if any(o is not l and o[2] == 'start' and o[0] < l[1] and (o[1] is None or o[1] > l[0]) for o in lc): continue     # concurrent start
            nxt = min([o[0] for o in lc if o[2] == 'start' and o[0] > l[1]] or [1 << 60])
            late = [c for c in auto if c['rt'] == i and l[1] < c['begin'] < nxt and not (w.marks.get(c['begin']) or 1 << 60) < l[1]]
            out.stats['stops_checked'] += 1
            if late:
                out.violation('R02', 'cycle-after-stop', 'async_step_stop of %s returned at t=%.4f, but a cycle began at t=%.4f without a restart' % (names[i], l[5], late[0]['t']))
    # ------------------------------------------------------------------ R03: rate in the quiet windows
    win = None
    for e in ev:
        if e[3] == 'window': win = e
        elif e[3] == 'window-end' and win is not None:
            i = names.index(win[4]); mode, cyc = win[5], win[6]
            b = [c['t'] for c in auto if c['rt'] == i and win[0] < c['begin'] < e[0]]
            n = len(b); span = e[1] - win[1]
            full = [c for c in auto if c['rt'] == i and win[0] < c['begin'] < e[0] and c['out'] is not None and len(c['writes']) == len(w.tags[i][1])]
            if mode == 'running':
                lo, hi = 11, 14
                if n < lo: out.violation('R03', 'ceased', '%s: only %d cycles began within %.2f s after all faults had ended (cycle time %.3f)' % (names[i], n, span, cyc))
                elif n > hi: out.violation('R03', 'multiple-rate', '%s: %d cycles began within %.2f s (cycle time %.3f)' % (names[i], n, span, cyc))
                elif len(full) < lo - 1: out.violation('R04', 'no-recovery', '%s: %d of %d cycles failed after all faults had ended' % (names[i], n - len(full), n))
                else:
                    gaps = [y - x for x, y in zip(b, b[1:])]
                    if gaps and (max(gaps) > 1.5 * cyc or min(gaps) < 0.5 * cyc):
                        out.violation('R03', 'irregular', '%s: gaps between cycles %s for cycle time %.3f without any fault' % (names[i], [round(g, 3) for g in gaps], cyc))
            elif mode == 'stopped' and any(not (w.marks.get(c['begin']) or 1 << 60) < win[0] for c in auto if c['rt'] == i and win[0] < c['begin'] < e[0]):      # (a cycle in progress may finish)
                out.violation('R02', 'cycle-after-stop', '%s: %d cycles began within %.2f s after async_step_stop' % (names[i], n, span))
            elif mode == 'fresh':
                if n == 0: out.violation('R02', 'no-restart', '%s: no cycle began within %.2f s after a restart' % (names[i], span))
                elif b[0] - win[1] > 0.3 * cyc: out.violation('R03', 'late-first-cycle', '%s: the first cycle after a start began %.3f s later' % (names[i], b[0] - win[1]))
                elif not 3 <= n <= 5: out.violation('R03', 'multiple-rate' if n > 5 else 'ceased', '%s: %d cycles within %.2f s after a restart (cycle time %.3f)' % (names[i], n, span, cyc))
            win = None

def make(pid, title):
    class C(RTCheck): pass
    C.pid = pid
    C.runs = {'quick': 1500, 'thorough': 150000}; C.cap = {'quick': 32, 'thorough': 1200}
    return C()
