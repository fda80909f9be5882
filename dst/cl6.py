"""C21: setup that fails, is interrupted, is repeated or is done in two parts ends in the configured object."""
import copy, warnings
import numpy as np
from .runner import Check, Violation, Harness
from .rng import Rng
from . import load, mods, sched, refnlp
from .loops import *
from .cl import *
from .cl import ClCheck, AnyCheck, C09

def put(M, own, n):
    """undo a replaced method"""
    setattr(M, n, own[n]) if own[n] is not None else delattr(M, n)

def make(pid): return globals()[pid]()

class Patched:
    """while open, `setup` of models and objects plays the scenario of the case around the real one"""
    def __init__(self, chk, dm, case, out):
        self.chk = chk; self.dm = dm; self.case = case; self.out = out; self.undo = []; self.deferred = []; self.released = False; self.problem = None
    def patch(self, cls, name, fn):
        self.undo.append((cls, name, cls.__dict__.get(name))); setattr(cls, name, fn)
    def __enter__(self):
        dm = self.dm; me = self; M = dm.model.Model; q = self.case['model']
        if q and self.case['o']['kind'] != 'lqr':
            real_rhs, real_alg, real_setup = M.set_rhs, M.set_alg, M.setup
            if q['k'] in ('rhs', 'alg'):
                names = [n for n, _ in mods.rhs_order(self.case['o']['s'])]; held = names[q.get('n', 0) % len(names):]
                def set_rhs(self, name, *a, **k):
                    if q['k'] == 'rhs' and name in held and not me.released: me.deferred.append((self, real_rhs, (name,) + a, k)); return
                    return real_rhs(self, name, *a, **k)
                def set_alg(self, *a, **k):
                    if q['k'] == 'alg': me.deferred.append((self, real_alg, a, k)); return
                    return real_alg(self, *a, **k)
                self.patch(M, 'set_rhs', set_rhs); self.patch(M, 'set_alg', set_alg)
            def setup(self):
                if q['k'] == 'int':
                    if me.run(lambda: real_setup(self), q): return
                elif me.deferred:
                    if not me.refused(lambda: real_setup(self), 'Model.setup without a right-hand side' if q['k'] == 'rhs' else 'Model.setup with one algebraic equation too few'): pass
                    me.released = True
                    for ob, fn, a, k in me.deferred: fn(ob, *a, **k)
                    del me.deferred[:]
                real_setup(self)
            self.patch(M, 'setup', setup)
        if q and self.case['o']['kind'] == 'lqr' and q['k'] == 'int':
            LM = dm.model.LinearModel; real_lsetup = LM.setup
            def lsetup(self, *a, **k):
                if me.run(lambda: real_lsetup(self, *a, **k), q): return
                real_lsetup(self, *a, **k)
            self.patch(LM, 'setup', lsetup)
        for cls in (dm.simulator.Simulator, dm.controller.MPC, dm.estimator.MHE, dm.controller.LQR): self.wrap(cls)
        return self
    def wrap(self, cls):
        real = cls.setup; me = self
        def setup(ob):
            me.play(ob, lambda: real(ob), me.case['build'])
        self.patch(cls, 'setup', setup)
    def __exit__(self, *a):
        for cls, name, old in reversed(self.undo): setattr(cls, name, old) if old is not None else delattr(cls, name)
        return False
    def run(self, fn, q):
        """an interrupted call; True when it got through"""
        inj = Inject({'k': 'int', 'n': q['n']}, Callbacks(), self.out)
        try:
            with inj: fn()
        except KeyboardInterrupt: return False
        return True
    def refused(self, fn, what):
        try: fn()
        except Exception: self.out.faults['refused setup'] += 1; return True
        self.problem = self.problem or '%s was accepted' % what; return False
    def play(self, ob, real, acts):
        for q in acts:
            k = q['k']
            if k == 'int': self.run(real, q)
            elif k == 'again': real(); self.out.faults['repeated setup'] += 1
            elif k == 'bad': self.bad(ob, real, q)
            elif k == 'other': self.other(ob, real, q)
            elif k == 'parts' and hasattr(ob, 'prepare_nlp'):
                ob.prepare_nlp()
                if q.get('n'): self.run(ob.create_nlp, q)
                if q.get('twice'): ob.prepare_nlp()
                ob.create_nlp(); self.out.faults['setup in parts'] += 1
                if q.get('end'): return
        real()
    def bad(self, ob, real, q):
        kind = self.case['o']['kind']; st = ob.settings; w = q['w']
        if kind in ('mpc', 'mhe') and w == 'bounds':
            f = '_u' if self.case['o']['s']['nu'] else '_x'; f = (f,) + mods.el(self.case['o']['s'], f, 0); old = [float(ob.bounds[(b,) + f]) for b in ('lower', 'upper')]
            ob.bounds[('lower',) + f] = 1e6; ob.bounds[('upper',) + f] = min(old[1], 1e5)
            self.refused(real, 'setup with a lower bound above the upper bound'); ob.bounds[('lower',) + f], ob.bounds[('upper',) + f] = old; return
        if kind in ('mpc', 'mhe') and w == 'stats':
            old = st.store_solver_stats; st.store_solver_stats = ['success', 'no such thing']
            self.refused(real, 'setup with an unknown solver statistic'); st.store_solver_stats = old; return
        if kind in ('mpc', 'mhe') and w == 'opts':
            old = st.nlpsol_opts; st.nlpsol_opts = dict(old, **{'no_such_option': 1})
            self.refused(real, 'setup with an unknown solver option'); st.nlpsol_opts = old; return
        if kind == 'sim' and self.case['o']['s']['type'] == 'continuous' and w == 'opts':
            old = st.integration_opts; st.integration_opts = {'no_such_option': 1}
            self.refused(real, 'Simulator.setup with an unknown integrator option'); st.integration_opts = old; return
        old = st.t_step; st.t_step = None
        self.refused(real, 'setup without a time step'); st.t_step = old
    def other(self, ob, real, q):
        """set up with another configuration first"""
        st = ob.settings; kind = self.case['o']['kind']; w = q['w']; old = {}
        def put(**kw):
            for k, v in kw.items(): old[k] = getattr(st, k); setattr(st, k, v)
        if kind == 'sim':
            put(t_step=st.t_step * 2)
            if self.case['o']['s']['type'] == 'continuous' and not self.case['o']['s']['nz']: put(integration_tool='idas')
        elif kind == 'lqr': put(**({'t_step': st.t_step * 2} if w == 'step' or st.n_horizon is None else {'n_horizon': st.n_horizon + 3}))
        else:
            if w == 'step': put(t_step=st.t_step * 2)
            elif w == 'horizon': put(n_horizon=st.n_horizon + 1)
            elif w == 'store': put(store_full_solution=not st.store_full_solution, store_lagr_multiplier=not st.store_lagr_multiplier)
            elif w == 'slack': put(nl_cons_single_slack=not st.nl_cons_single_slack, nl_cons_check_colloc_points=not st.nl_cons_check_colloc_points)
            elif w == 'colloc': put(collocation_deg=st.collocation_deg % 3 + 1, collocation_ni=3 - st.collocation_ni)
            elif w == 'bounds':
                f = ('upper', '_x') + mods.el(self.case['o']['s'], '_x', 0); b = float(ob.bounds[f]); ob.bounds[f] = 9.0
                real(); ob.bounds[f] = b; self.out.faults['setup with other settings'] += 1; return
        real(); self.out.faults['setup with other settings'] += 1
        for k, v in old.items(): setattr(st, k, v)

def gen_acts(rng, o, mid=False):
    acts = []
    kind = o['kind']; big = {'sim': 90, 'lqr': 60, 'mpc': 700, 'mhe': 900}[kind]
    for _ in range(rng.pick([1, 1, 2, 3])):
        k = rng.weighted([('int', 5), ('again', 2), ('bad', 3), ('other', 2), ('parts', 2)])
        if k == 'int': acts.append({'k': 'int', 'n': rng.randint(1, rng.pick([20, big, big]))})
        elif k == 'again': acts.append({'k': 'again'})
        elif k == 'bad': acts.append({'k': 'bad', 'w': rng.pick(['step', 'bounds', 'stats', 'opts'])})
        elif k == 'other': acts.append({'k': 'other', 'w': rng.pick(['step', 'horizon', 'store', 'slack', 'colloc', 'bounds'])})
        elif kind in ('mpc', 'mhe'): acts.append({'k': 'parts', 'n': rng.pick([None, rng.randint(1, 40)]), 'twice': rng.chance(0.4), 'end': rng.chance(0.5)})
    if o.get('mode') == 'same':
        # templates made for one horizon cannot be used for another one
        for a in acts:
            if a['k'] == 'other' and a['w'] == 'horizon': a['w'] = 'step'
    return acts

class C21(AnyCheck):
    pid = 'C21'
    runs = {'quick': 1000, 'thorough': 40000}
    rule = 'at least one setup was disturbed and one step was compared; distinct if the results differ'
    def gen(self, rng, idx, tier):
        o = gen_any(rng); kind = o['kind']
        how = rng.weighted([('build', 5), ('mid', 4), ('modified', 2)]) if kind in ('mpc',) else rng.weighted([('build', 5), ('mid', 4)])
        if how == 'modified':
            o['c']['nr'] = 0; o['c']['ncomb'] = 1
            if o['c']['pmode'] == 'values': o['c']['pmode'] = 'fun'; o['c'].pop('pv', None)
        ops = [gen_step(rng, o) for _ in range(rng.randint(2, 6))]
        case = dict(o=o, how=how, init=gen_init(rng, o), ops=ops, build=[], model=None)
        if how == 'build':
            case['build'] = gen_acts(rng, o)
            ch = [None, {'k': 'int', 'n': rng.randint(1, 320)}, {'k': 'rhs', 'n': rng.randint(0, 3)}]
            if kind != 'lqr' and o['s']['nz']: ch.append({'k': 'alg'})
            case['model'] = rng.pick(ch) if kind != 'lqr' else rng.pick([None, {'k': 'int', 'n': rng.randint(1, 300)}])
        elif how == 'mid':
            case['at'] = rng.randint(0, len(ops) - 1); case['redo'] = rng.chance(0.5); case['acts'] = gen_acts(rng, o)
            if not case['redo']: case['acts'] = [a for a in case['acts'] if a['k'] in ('int', 'bad')] or [{'k': 'int', 'n': rng.randint(1, 200)}]
            if kind == 'mhe' and case['redo']: pass
        else:
            case['mod'] = dict(w=rng.fl(0.1, 2, 2), us=rng.fl(-1, 1, 2), cut=rng.fl(0.1, 0.6, 2), first=rng.chance(0.3), rebuild=rng.chance(0.4), n=rng.pick([None, rng.randint(1, 40)]))
        return case
    def tol(self, o): return 1e-9 if o['kind'] == 'lqr' else (1e-9 if o['s']['type'] == 'discrete' and not o['s']['nz'] else 1e-6) if o['kind'] == 'sim' else 2e-4
    def run(self, case, out):
        {'build': self.run_build, 'mid': self.run_mid, 'modified': self.run_mod}[case['how']](case, out)
    def same(self, out, what, A, B, tol, exact):
        d = None
        sa, sb = A.snap(), B.snap()
        if not exact: sa, sb = vars_of(sa), vars_of(sb)
        # a field that an earlier setup had asked for stays, without rows
        sb = {k: v for k, v in sb.items() if k in sa or not k.startswith('data.') or np.size(v)}
        if set(sa) != set(sb): d = 'the records are %s instead of %s' % (sorted(set(sb) - set(sa)) or 'lacking', sorted(set(sa) - set(sb)) or 'fewer')
        d = d or diff(sb, sa, tol)
        if d: out.violation(self.pid, 'differs', what + d); return False
        return True
    def steps(self, case, out, A, B, ops, what, exact):
        o = case['o']; n = 0; tol = self.tol(o)
        for i, op in ops:
            w = '%s, %s op %d %s: ' % (what, o['kind'], i, op['op'])
            ra, _ = do(A, op); rb, _ = do(B, op)
            if not A.expect_ok(ra, None, self.pid, '%s op %d of the plainly set up object' % (o['kind'], i)): return None
            if not B.expect_ok(rb, None, self.pid, w): return None
            if not (good(A) and good(B)):
                if good(A) != good(B) and exact: out.violation(self.pid, 'differs', w + 'one solve succeeded, the other did not'); return None
                out.stats['unsolved'] += 1; return n
            d = diff({'result': result(B, rb)}, {'result': result(A, ra)}, tol)
            if d: out.violation(self.pid, 'differs', w + d); return None
            if not self.same(out, w, A, B, tol, exact): return None
            n += 1; out.log(np.round(result(A, ra), 4).tolist()); out.stats['steps'] += 1; out.sim_time += o['c']['tstep'] if o['kind'] == 'lqr' else o['s']['tstep']
        return n
    def run_build(self, case, out):
        o = case['o']; A = build(self.dm, o, out); pt = Patched(self, self.dm, case, out)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                with pt: B = build(self.dm, o, out)
            except Exception as e:
                if isinstance(e, Harness): raise
                import traceback
                out.violation(self.pid, 'spurious-error', '%s: setup after %s failed: %s' % (o['kind'], self.words(case), ''.join(traceback.format_exception(e)[-3:])[-700:])); return
        if pt.problem: out.violation(self.pid, 'accepted', pt.problem); return
        if o['kind'] != 'lqr': A.init(**case['init']); B.init(**case['init'])
        what = 'after ' + self.words(case)
        if not self.same(out, what + ': ', A, B, 1e-9, True): return
        n = self.steps(case, out, A, B, list(enumerate(case['ops'])), what, True)
        if n is None: return
        out.nontrivial = n >= 1 and (sum(out.faults.values()) >= 1); out.summary = '%s, %s, %d steps' % (o['kind'], self.words(case), n)
    def words(self, case):
        r = []
        q = case['model']
        if q: r.append({'int': 'Model.setup interrupted at statement %s' % q.get('n'), 'rhs': 'Model.setup refused for want of a right-hand side', 'alg': 'Model.setup refused for want of an algebraic equation'}[q['k']])
        for q in case.get('acts') or case['build']:
            r.append({'int': 'setup interrupted at statement %s' % q.get('n'), 'again': 'a repeated setup', 'bad': 'a refused setup (%s)' % q.get('w'), 'other': 'a setup with other settings (%s)' % q.get('w'), 'parts': 'prepare_nlp and create_nlp'}[q['k']])
        return ', '.join(r) or 'a plain setup'
    def run_mid(self, case, out):
        """in the middle of a run: a setup that fails leaves the object as it was, one that succeeds gives a fresh one"""
        o = case['o']; A, B = build(self.dm, o, out), build(self.dm, o, out); at = case['at']; what = 'after ' + self.words(case) + (' and a new setup' if case['redo'] else '') + ' between the steps'
        if o['kind'] != 'lqr': A.init(**case['init']); B.init(**case['init'])
        ops = list(enumerate(case['ops']))
        if self.steps(case, out, A, B, ops[:at], 'before', True) is None: return
        if not (good(A) and good(B)) and at: return
        saved = save(B); pt = Patched(self, self.dm, case, out); ob = obj(B); done = []
        cls = type(ob); real = cls.setup
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            def counted(): real(ob); done.append(1)
            try:
                if case['redo']: pt.play(ob, counted, case['acts'])
                else:
                    for q in case['acts']:
                        if q['k'] == 'int': pt.run(counted, q)
                        else: pt.bad(ob, counted, q)
            except Exception as e:
                if isinstance(e, Harness): raise
                import traceback
                out.violation(self.pid, 'spurious-error', '%s: setup %s failed: %s' % (o['kind'], what, ''.join(traceback.format_exception(e)[-3:])[-700:])); return
        if pt.problem: out.violation(self.pid, 'accepted', pt.problem); return
        fresh = bool(done) or case['redo']
        if fresh and o['kind'] in ('mpc', 'mhe'):
            A = build(self.dm, o, out); restore(A, saved); obj(B).set_initial_guess(); A.t = float(saved['t0'][0])
            B.rows = []
            if hasattr(B, 'ylist'): B.ylist = []; B.prior = saved['x0'].copy()
        if not self.same(out, what + ': ', A, B, 1e-9, not fresh or o['kind'] not in ('sim',)): return
        n = self.steps(case, out, A, B, ops[at:], what, not fresh or o['kind'] != 'sim')
        if n is None: return
        out.nontrivial = n >= 1 and sum(out.faults.values()) >= 1; out.summary = '%s, %s, %d steps' % (o['kind'], what, n)
    def run_mod(self, case, out):
        """an objective and constraints added between prepare_nlp and create_nlp"""
        import casadi
        o = case['o']; s, c = o['s'], o['c']; q = case['mod']; N = c['N']; M = self.dm.controller.MPC
        # the twin has the same terms in its stage cost and its input bounds
        oa = copy.deepcopy(o); oa['c']['Ru'] = list(c['Ru']); oa['c']['extra'] = None
        real_obj = M.set_objective; real_setup = M.setup; own = {n: M.__dict__.get(n) for n in ('set_objective', 'setup')}; pt = Patched(self, self.dm, case, out)
        lo, up = max(c['lb'][0], -q['cut']), min(c['ub'][0], q['cut']); sc = c['us'][0]
        def set_objective(ob, mterm=None, lterm=None):
            u0 = mods.elems(s, '_u', ob.model.u)[0]
            return real_obj(ob, mterm=mterm, lterm=lterm + q['w'] * (u0 - q['us']) ** 2)
        M.set_objective = set_objective
        try: A = build(self.dm, oa, out)
        finally: put(M, own, 'set_objective')
        ku = mods.el(s, '_u', 0)
        A.mpc.bounds[('lower', '_u') + ku] = lo; A.mpc.bounds[('upper', '_u') + ku] = up
        def setup(ob):
            if q['rebuild']:
                ob.prepare_nlp(); ob.nlp_obj = ob.nlp_obj * 3 + 1; ob.nlp_cons.append(ob.opt_x['_u', 0, 0][0] - 7); ob.nlp_cons_lb.append(np.zeros((1, 1))); ob.nlp_cons_ub.append(np.zeros((1, 1)))
            ob.prepare_nlp(); add = 0
            for k in range(N):
                u0 = ob.opt_x[('_u', k, 0) + ku] * sc
                add = add + q['w'] * (u0 - q['us']) ** 2
                ob.nlp_cons.append(u0); ob.nlp_cons_lb.append(np.full((1, 1), lo)); ob.nlp_cons_ub.append(np.full((1, 1), up))
            ob.nlp_obj += add
            if q['n']: pt.run(ob.create_nlp, q)
            if not ob.flags['setup']: ob.create_nlp()
        M.setup = setup
        try: B = build(self.dm, o, out)
        except Exception as e:
            import traceback
            out.violation(self.pid, 'spurious-error', 'a modified problem failed: %s' % ''.join(traceback.format_exception(e)[-3:])[-700:]); return
        finally: put(M, own, 'setup')
        A.init(**case['init']); B.init(**case['init']); out.faults['modified problem'] += 1
        n = self.steps_mod(case, out, A, B)
        if n is None: return
        out.nontrivial = n >= 1; out.summary = 'modified problem, %d steps' % n
    def steps_mod(self, case, out, A, B):
        n = 0
        for i, op in enumerate(case['ops']):
            w = 'objective and constraints added after prepare_nlp, op %d: ' % i
            ra, _ = do(A, op); rb, _ = do(B, op)
            if not A.expect_ok(ra, None, self.pid, 'mpc op %d' % i) or not B.expect_ok(rb, None, self.pid, w): return None
            if not (good(A) and good(B)): out.stats['unsolved'] += 1; return n
            d = diff({'result': result(B, rb)}, {'result': result(A, ra)}, 5e-4)
            if d: out.violation(self.pid, 'modified', w + d); return None
            n += 1; out.log(np.round(result(A, ra), 4).tolist()); out.stats['steps'] += 1; out.sim_time += case['o']['s']['tstep']
        return n
