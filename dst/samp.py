"""S01-S05: sampling campaigns, plans and result files on the simulated file layer with several worker processes."""
import os, sys, io, json, pickle, shutil, tempfile, atexit
from .runner import Check, Violation, Harness, in_domain
from .rng import Rng
from . import load, sched, fsim
from .faults import FaultSource
import numpy as np

BASE = None
def base_dir():
    global BASE
    if BASE is None:
        for d in ('/dev/shm', '/tmp'):
            if os.access(d, os.W_OK): break
        BASE = tempfile.mkdtemp(prefix='dst-verif-', dir=d)
        pid = os.getpid()
        def clean():
            if os.getpid() == pid: shutil.rmtree(BASE, ignore_errors=True)
        atexit.register(clean)
        from . import runner
        runner.CLEANUP.append(clean)
    return BASE

# ------------------------------------------------------------------ values of the sample function (deterministic in version and case)
def value(v, a, b, fmt):
    k = (a * 7 + v) % (5 if fmt == 'mat' else 7)
    if k == 0: return float(a) * 1.5 + v * 1000 + b
    if k == 1: return np.arange(6, dtype=float).reshape(2, 3) * (a + 1) + v * 1000 + b
    if k == 2: return np.arange(3000, dtype=float) + a * 0.5 + v * 1000
    if k == 3: return {'x': np.array([[a, v]], dtype=float), 'y': b + v * 1000.0}
    if k == 4: return np.full((1200, 3), a + v * 1000.0)
    if k == 5: return 'case %d of version %d %s' % (a, v, 'z' * (a * 50 % 400))
    return [a, v, {'k': (a, b)}, np.arange(4) * v]

def same(x, y):
    if isinstance(x, dict) and isinstance(y, dict): return set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        try: return np.shape(x) == np.shape(y) and bool(np.array_equal(np.asarray(x), np.asarray(y)))
        except Exception: return False
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)): return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    return type(x) == type(y) and x == y

def same_mat(res, val):
    """is `res` (what loadmat returned) the stored value?"""
    try:
        r = res['res']
        if isinstance(val, dict):
            return set(r.dtype.names) == set(val) and all(np.array_equal(np.squeeze(r[k][0, 0]), np.squeeze(np.asarray(val[k]))) for k in val)
        return bool(np.array_equal(np.squeeze(r), np.squeeze(np.asarray(val))))
    except Exception: return False

def short(x):
    s = repr(x); return s if len(s) < 120 else s[:117] + '...'

class Proc:
    """one simulated worker process"""
    def __init__(self, name): self.name = name; self.kills = 0; self.faults = 0; self.done = False; self.result = []; self.ctx = None

class FsCheck(Check):
    batch = 25
    case_timeout = 40
    shrink_lists = [('procs',), ('procs', '*', 'ops'), ('pre',)]
    stub = ['file system calls (real files in a scratch directory behind an interposed layer)', 'processes (simulated threads with fenced effects)', 'clock']
    assumptions = ['crash model: the process dies, the operating system survives (data handed to write() is kept, buffered data is lost)',
                   'data_dir / result_path end with a path separator as in the documentation']
    def prepare(self):
        load.load(); fsim.install(); base_dir()
    def sched_params(self, rng):
        return dict(preempt_p=rng.pick([0.0, 0.05, 0.2, 0.4]), p=rng.pick([0, 0.01, 0.03, 0.1]), lp=rng.pick([0, 0, 0.001, 0.004]))

    # -------------------------------------------------------------- execution frame
    def run(self, case, out):
        dm = load.load()
        plan = case.get('plan')
        rng = Rng(case['seed']); sc = case['sched']
        replay = plan is not None
        root = os.path.join(base_dir(), '%d_%d' % (os.getpid(), case.get('idx', 0)))
        os.makedirs(root)
        self.sim = sim = sched.Sim(rng=None if replay else rng.sub('s'), plan=plan.get('sched', []) if replay else None, preempt_p=sc['preempt_p'],
                        max_steps=60000, max_lines=1500000)
        self.fsrc = FaultSource(None if replay else rng.sub('f'), sc['p'], fsim.FAULTS_W(), plan=plan.get('fs', []) if replay else None, budget=case.get('budget', 12))
        self.lsrc = FaultSource(None if replay else rng.sub('l'), sc['lp'], {'line': [('kill', 3), ('intr', 1)]}, plan=plan.get('line', []) if replay else None, budget=4)
        fs = fsim.FS(sim, root, self.fsrc); fsim.FS_ = fs
        self.fs = fs; self.root = root; self.out = out; self.dm = dm; self.case = case
        def line(t, site):
            if t.proc is None or sim.nopreempt or not t.proc.armed or not self.fsrc.enabled: return
            f = self.lsrc.decide('line')
            if f:
                t.proc.faults += 1
                if f[0] == 'kill': sim.kill_proc(t.proc); raise sched.SimKill()
                raise KeyboardInterrupt('injected')
        if sc['lp'] or (replay and plan.get('line')): sim.on_line = line
        old = sys.stdout; sys.stdout = io.StringIO(); self.err = []
        real_changed = fs.changed
        def changed(op, path):
            sim.nopreempt += 1; en, self.fsrc.enabled = self.fsrc.enabled, False
            try: self.on_change(op, path)
            finally: sim.nopreempt -= 1; self.fsrc.enabled = en
            real_changed(op, path)
        fs.changed = changed
        real_enter = fs.enter
        def enter(op, path, allow=True):
            before = len(self.fsrc.rec)
            t = sched.cur_thread()
            try: return real_enter(op, path, allow and t.proc is not None)
            finally:
                if len(self.fsrc.rec) != before and t.proc is not None: t.proc.faults += 1
        fs.enter = enter
        try:
            def main():
                try: self.scenario(case)
                except (sched.SimAbort, sched.SimKill): raise
                except BaseException as e: self.err.append(e)
                finally: sim._abort_all('end')
            sim.run(main)
        finally:
            fsim.FS_ = None; sys.stdout = old
            shutil.rmtree(root, ignore_errors=True)
        if self.err: raise self.err[0]
        if sim.aborting not in (None, 'end'): self.V('stuck', 'a call never returns (%s)' % sim.aborting)
        out.log(sim.log); out.rec = {'sched': sim.dev, 'fs': self.fsrc.rec, 'line': self.lsrc.rec}
        out.sim_time = sim.mono
        for k, v in self.fsrc.fired.items(): out.faults['fs-' + k] += v
        for k, v in self.lsrc.fired.items(): out.faults['statement-' + k] += v
        out.cover |= {'%s>%s' % s for s in sim.sites}
        out.stats['fs_ops'] += fs.ops; out.stats['switches'] += sim.switches
        out.nontrivial = bool(self.fsrc.rec or self.lsrc.rec or sim.dev) and fs.ops > 5
        out.summary = dict(fs_ops=fs.ops, faults=len(self.fsrc.rec) + len(self.lsrc.rec), switches=sim.switches)

    def V(self, cls, msg): self.out.violation(self.pid, cls, msg)
    def on_change(self, op, path): pass

    class quiet:
        """observation by the harness: no pre-emption, no faults"""
        def __init__(self, c): self.c = c
        def __enter__(self): self.c.sim.nopreempt += 1; self.en, self.c.fsrc.enabled = self.c.fsrc.enabled, False
        def __exit__(self, *a): self.c.sim.nopreempt -= 1; self.c.fsrc.enabled = self.en

    def run_procs(self, procs, body):
        """start every process at its time; body(proc, spec) runs in it; returns when all are over (or dead)"""
        sim = self.sim; ps = []
        def start(k, spec):
            p = P(str(k)); p.spec = spec; ps.append(p)
            def fn():
                sim.sleep(spec.get('at', 0.0))
                p.armed = True
                try: body(p, spec)
                except (sched.SimKill, sched.SimAbort): p.killed = True; raise
                finally: p.armed = False; p.done = True
            sim.spawn(fn, 'proc%d' % k, proc=p)
        for k, s in enumerate(procs): start(k, s)
        while not all(p.done for p in ps): sim.sleep(0.25)
        return ps

class P:
    def __init__(self, name): self.name = name; self.armed = False; self.done = False; self.killed = False; self.faults = 0; self.ow = None; self.before = {}
    def __repr__(self): return 'P' + self.name

NAMES = ['sample', 'sample', 'sample', 'a', 'run.pkl', 'x.y', 'b c', 'a_0', 's.pkl.tmp', 'a.mat', 'case_1']
DIRS = ['d/', 'd/', 'd/e/', 'set.pkl/', 'd.pklx/']

def gen_ids(rng):
    """ids of the cases of a part of a large plan (what SamplingPlanner gives them with some id_precision)"""
    r = rng.random()
    if r < .6: return [3] + list(range(8))
    if r < .8: b = rng.pick([7, 97, 996, 99997]); return [rng.pick([1, 2, 3])] + list(range(b, b + 8))
    return [rng.pick([1, 3])] + [1, 11, 1001, 2001, 10001, 101, 12001, 21]
def ids_of(case):
    i = case.get('ids') or [3] + list(range(case['n']))
    return [str(k).zfill(i[0]) for k in i[1:case['n'] + 1]]

class CampaignCheck(FsCheck):
    """S01 and S02"""
    real = ['do_mpc.sampling.Sampler', 'do_mpc.sampling.DataHandler', 'do_mpc.tools.save_pickle/load_pickle', 'pickle', 'scipy.io.savemat/loadmat']
    rule = ('one run = 1-6 worker processes running Samplers over 1-3 campaigns that may share directories, with kills at file operations and '
            'statements, I/O errors, torn writes, full disk, interrupts, failing sample functions, followed by a fault-free final run per campaign; '
            'non-trivial: a fault was injected or a process switch forced, and more than 5 file operations were made')
    def gen(self, rng, idx, tier):
        n = rng.randint(1, 6)
        camps = []
        for _ in range(rng.weighted([(1, 4), (2, 3), (3, 1)])):
            c = dict(dir=rng.pick(DIRS), name=rng.pick(NAMES), fmt=rng.pick(['pickle', 'pickle', 'mat']))
            if camps and rng.chance(.4): c = dict(camps[0], **{k: c[k] for k in [rng.pick(['dir', 'name', 'fmt'])]})       # campaigns that differ in one respect
            if not any(x['dir'] == c['dir'] and x['name'] == c['name'] and x['fmt'] == c['fmt'] for x in camps): camps.append(c)
        procs = []
        ow = rng.chance(0.55 if self.pid == 'S02' else 0.25)
        for k in range(rng.randint(1, 5)):
            ci = rng.randrange(len(camps))
            ops = []
            for _ in range(rng.weighted([(1, 4), (2, 2), (4, 1)])):
                ops.append(['data'] if rng.chance(.7) else ['idx', rng.randrange(n)])
                if rng.chance(.12): ops.append(['to', rng.randrange(len(camps))])
                if ow and rng.chance(.1): ops.append(['ow', rng.randrange(2)])
                if rng.chance(.08): ops.append(['fun', rng.randint(0, 3)])
            procs.append(dict(camp=ci, ow=int(ow and rng.chance(.6)), v=rng.randint(0, 3), at=rng.pick([0.0, 0.0, 0.3, 1.0, 2.0, 4.0, 9.0]), ops=ops,
                              dur=rng.pick([0.0, 0.0, 0.2]), retry=rng.pick([0, 0, 1, 1, 2]), fail=sorted({rng.randrange(2 * n) for _ in range(rng.pick([0, 0, 0, 1, 2]))}),
                              failkind=rng.pick(['raise', 'unpicklable', 'unpicklable2', 'intr'])))
        return dict(seed=rng.getrandbits(48), n=n, ids=gen_ids(rng), camps=camps, procs=procs, sched=self.sched_params(rng), budget=rng.pick([1, 2, 5, 12]),
                    bystander=int(rng.chance(.5)))
    def simplify(self, case):
        import copy
        for n in range(1, case['n']):
            c = copy.deepcopy(case); c['n'] = n
            for p in c['procs']: p['ops'] = [o for o in p['ops'] if o[0] != 'idx' or o[1] < n]
            yield c
        for k, p in enumerate(case['procs']):
            for f, v in (('dur', 0.0), ('at', 0.0), ('fail', [])):
                if p[f] != v: c = copy.deepcopy(case); c['procs'][k][f] = v; yield c
        for k in range(len(case['camps'])):
            if case['camps'][k]['dir'] != 'd/': c = copy.deepcopy(case); c['camps'][k]['dir'] = 'd/'; yield c
            if case['camps'][k]['name'] != 'sample': c = copy.deepcopy(case); c['camps'][k]['name'] = 'sample'; yield c

    def scenario(self, case):
        dm, sim, n = self.dm, self.sim, case['n']
        self.plan = [{'a': i, 'b': i * 0.25, 'id': d} for i, d in enumerate(ids_of(case))]
        self.camps = case['camps']
        keys = set()
        for c in self.camps:
            c['_k'] = (c['dir'], c['name'], c['fmt'])
        for c in self.camps: c.pop('_k')
        self.files = {}                      # path -> (campaign, case index)
        for ci, c in enumerate(self.camps):
            for i in range(n):
                self.files[os.path.join(self.root, c['dir']) + '%s_%s%s' % (c['name'], self.plan[i]['id'], '.pkl' if c['fmt'] == 'pickle' else '.mat')] = (ci, i)
        self.state = {}                      # path -> (bytes, version) of the last complete content
        self.versions = {ci: {v for p in case['procs'] for v in [p['v']] + [o[1] for o in p['ops'] if o[0] == 'fun'] if p['camp'] == ci or ['to', ci] in p['ops']} | {99} for ci in range(len(self.camps))}
        self.by = {}
        if case['bystander']:
            with self.quiet(self):
                for c in self.camps:
                    os.makedirs(os.path.join(self.root, c['dir']), exist_ok=True)
                    for nm in ('notes.txt', 'sample.pkl', c['name'], 'run_000.pkl' if not any(x['name'] == 'run' for x in self.camps) else 'n2.txt'):
                        f = os.path.join(self.root, c['dir'], nm)
                        if f in self.files: continue
                        with open(f, 'wb') as h: h.write(b'keep me ' + nm.encode())
                        self.by[f] = fsim.raw_read(f)
        self.live = []
        self.run_procs(case['procs'], self.body)
        # ---------------------------------------------------------- faults have ended: one more run over every campaign completes it
        self.fsrc.enabled = False
        for ci in range(len(self.camps)):
            p = P('final%d' % ci); p.spec = dict(camp=ci, ow=0, v=99, fail=[], dur=0.0, failkind='raise')
            p.final = True
            try: self.body(p, dict(p.spec, ops=[['data']]), proc_thread=False)
            except (sched.SimAbort, sched.SimKill): raise
            except Exception as e:
                if not in_domain(e.__traceback__): raise
                import traceback
                self.V('never-completes', 'a fault-free Sampler run over campaign %s raised %s' % (self.camps[ci], traceback.format_exc()[-700:]))
        for f, b in self.by.items():
            try: now = fsim.raw_read(f)
            except FileNotFoundError: now = None
            if now != b and self.pid == 'S02': self.V('foreign-file', 'a Sampler changed the file %s, which belongs to nobody' % os.path.relpath(f, self.root))

    def body(self, p, spec, proc_thread=True):
        dm, sim = self.dm, self.sim
        c = self.camps[spec['camp']]; ver = [spec['v']]
        calls = [0]; cur = [None]
        fail = set(spec['fail'])
        p.ow = bool(spec['ow']); p.camp = spec['camp']; p.rec = []
        def fn(a, b):
            k = calls[0]; calls[0] += 1
            sim.ev('sample', p.name, a)
            if not p.ow and a in p.complete0 and self.pid == 'S01':
                self.V('recomputed', 'process %s computed case %d again although its sample was complete before the call (overwrite off)' % (p.name, a))
            p.rec.append(a)
            if spec['dur']: sim.sleep(spec['dur'])
            if k in fail:
                p.faults += 1; self.out.faults['sample-function-' + spec['failkind']] += 1
                if spec['failkind'] == 'raise': raise ValueError('injected sample failure')
                if spec['failkind'] == 'intr': raise KeyboardInterrupt('injected')
                if spec['failkind'] == 'unpicklable': return {'x': [1] * 5000, 'f': object() if c['fmt'] == 'mat' else (lambda: 0)}
                return {'x': np.arange(2000.), 'f': object()} if c['fmt'] == 'mat' else [np.zeros(3000), lambda: 1]
            return value(ver[0], a, b, c['fmt'])
        p.complete0 = set(); p.begin = {}
        try:
            s = dm.sampling.Sampler([dict(x) for x in self.plan], print_progress=False)
            s.data_dir = os.path.join(self.root, c['dir'])
            s.set_param(sample_name=c['name'], save_format=c['fmt'], overwrite=p.ow)
            s.set_sample_function(fn)
            ops = list(spec['ops'])
            if spec.get('retry') == 2: ops.append(['data'])
            for op in ops:
                if op[0] == 'to':                       # the same Sampler goes on with another campaign
                    p.camp = op[1] % len(self.camps); c = self.camps[p.camp]
                    s.set_param(sample_name=c['name'], save_format=c['fmt']); s.data_dir = os.path.join(self.root, c['dir']); continue
                if op[0] == 'ow': s.set_param(overwrite=bool(op[1])); p.ow = bool(op[1]); continue
                if op[0] == 'fun':
                    if p.ow: ver[0] = op[1]; s.set_sample_function(fn)
                    continue
                with self.quiet(self):
                    self.scan(); f0 = p.faults
                    p.begin = {f: self.state[f] for f in self.state}
                    p.complete0 = {i for f, (ci, i) in self.files.items() if ci == p.camp and f in self.state}
                p.overlap = False
                for q in self.live:
                    if q.camp == p.camp: q.overlap = p.overlap = True
                self.live.append(p)
                t0 = len(self.log_ow)
                try:
                    if op[0] == 'data': s.sample_data()
                    else: s.sample_idx(op[1])
                except (sched.SimAbort, sched.SimKill): raise
                except (Exception, KeyboardInterrupt) as e:
                    if p.faults == f0 and not isinstance(e, KeyboardInterrupt) and self.pid == 'S01' and not getattr(p, 'final', False):
                        if not in_domain(e.__traceback__): raise
                        import traceback
                        self.V('spurious-error', '%s of process %s raised although nothing failed in it: %s' % (op, p.name, traceback.format_exc()[-500:])); return
                    # the user of an interactive session tries again with the same Sampler
                    if not spec.get('retry'): raise
                    sim.ev('raised', p.name, type(e).__name__); self.out.stats['sampler_retries'] += 1
                    continue
                finally: self.live.remove(p)
                sim.ev('returned', p.name)
                with self.quiet(self): self.complete(p, ver[0], range(case_n(self)) if op[0] == 'data' else [op[1]], t0)
        except (sched.SimAbort, sched.SimKill): raise
        except KeyboardInterrupt: pass
        except Exception as e:
            if getattr(p, 'final', False): raise
            sim.ev('raised', p.name, type(e).__name__)
            self.out.stats['sampler_raised'] += 1
    log_ow = property(lambda self: self.__dict__.setdefault('_log_ow', []))

    def complete(self, p, ver, idxs, t0):
        """the run of process p has returned normally: every case has its sample"""
        self.out.stats['completed_runs'] += 1
        if self.pid != 'S01': return
        c = self.camps[p.camp]
        dh = self.dm.sampling.DataHandler([dict(x) for x in self.plan])
        dh.set_param(data_dir=os.path.join(self.root, c['dir']), sample_name=c['name'], save_format=c['fmt'])
        for i in idxs:
            try: r = dh[i][0]['res']
            except Exception as e:
                if not in_domain(e.__traceback__): raise
                self.V('corrupt', 'process %s finished its run normally, but the sample of case %d cannot be loaded: %s(%s)' % (p.name, i, type(e).__name__, str(e)[:100])); return
            if r is None:
                self.V('missing', 'process %s finished its run normally, but case %d has no sample' % (p.name, i)); return
            # with overwriting on, only later or simultaneous overwriters may have stored another version
            vs = self.versions[p.camp] if p.overlap or not p.ow else {ver}
            if not any(self.same(r, v, i, c['fmt']) for v in vs):
                self.V('wrong-value', 'case %d has the stored result %s, which is not what the sample function returned' % (i, short(r))); return

    def same(self, r, v, i, fmt):
        val = value(v, self.plan[i]['a'], self.plan[i]['b'], fmt)
        return same_mat(r, val) if fmt == 'mat' else same(r, val)

    def loadfile(self, f, data):
        """version stored in the bytes, or None when they are not a complete sample of that case"""
        ci, i = self.files[f]; fmt = self.camps[ci]['fmt']
        try:
            if fmt == 'pickle': r = pickle.loads(data)
            else:
                import scipy.io as sio
                r = sio.loadmat(io.BytesIO(data))
        except Exception: return None
        for v in sorted(self.versions[ci]):
            if self.same(r, v, i, fmt): return v
        return 'foreign:' + short(r)

    def scan(self):
        for f in self.files:
            try: d = fsim.raw_read(f)
            except (FileNotFoundError, NotADirectoryError, IsADirectoryError): continue
            if f in self.state and self.state[f][0] == d: continue
            v = self.loadfile(f, d)
            if v is not None and not str(v).startswith('foreign'): self.state[f] = (d, v)

    def on_change(self, op, path):
        """after every operation on the disk: a crash at this very point would leave this"""
        if self.pid != 'S02' and op == 'write': return
        t = sched.cur_thread(); p = t.proc
        for f in self.files:
            try: d = fsim.raw_read(f)
            except (FileNotFoundError, NotADirectoryError): d = None
            old = self.state.get(f)
            if old is not None and d == old[0]: continue
            if d is None and old is None: continue
            v = None if d is None else self.loadfile(f, d)
            rel = os.path.relpath(f, self.root)
            ok = v is not None and not str(v).startswith('foreign')
            if self.pid == 'S02':
                if old is not None and not ok:
                    self.V('torn', 'process %s (%s on %s): the complete sample %s is now %s' % (p, op, self.fs.short(path), rel, 'gone' if d is None else 'incomplete or foreign (%d bytes, %s)' % (len(d), v)))
                    del self.state[f]; continue
                elif v is not None and not ok:
                    self.V('foreign-content', 'process %s: %s holds %s, not a result of its own case' % (p, rel, v)); self.state.pop(f, None); continue
                elif old is not None and ok and v != old[1] or (old is not None and ok and d != old[0]):
                    who = [q for q in self.live if q is p] or ([p] if p is not None else [])
                    if p is not None and (not p.ow and f in p.begin and p.begin[f][0] == old[0]):
                        self.V('overwritten', 'process %s (overwrite off) replaced the sample %s, which was complete when its call began' % (p, rel))
                    elif p is not None and self.files[f][0] != p.camp:
                        self.V('foreign-file', 'process %s replaced the sample %s of another campaign' % (p, rel))
            if ok: self.state[f] = (d, v)

def case_n(self): return self.case['n']

class HandlerCheck(CampaignCheck):
    """S03"""
    real = ['do_mpc.sampling.DataHandler', 'do_mpc.sampling.Sampler', 'do_mpc.tools.save_pickle/load_pickle', 'pickle', 'scipy.io']
    rule = ('one run = one or two sampling processes in progress (with I/O faults and kills) and 1-4 reader threads over 1-3 DataHandlers (some shared between threads) with '
            'random queries, filters, post-processing changes, parameter changes and read errors; non-trivial as for S01')
    shrink_lists = [('procs',), ('procs', '*', 'ops'), ('readers',), ('readers', '*', 'ops')]
    def gen(self, rng, idx, tier):
        c = CampaignCheck.gen(self, rng, idx, tier)
        c['n'] = n = rng.randint(1, 6)
        c['bystander'] = 0
        c['camps'] = [x for k, x in enumerate(c['camps']) if k < 2]
        for x in c['camps']:
            if '.pkl' in x['name'] and rng.chance(.5): x['name'] = 'sample' if len(c['camps']) == 1 else x['name']
        c['procs'] = c['procs'][:rng.randint(1, 3)]
        vers = {}
        for p in c['procs']:
            p['camp'] %= len(c['camps']); p['ow'] = 0; p['dur'] = rng.pick([0.0, 0.1, 0.4]); p['v'] = vers.setdefault(p['camp'], p['v'] + 4 * p['camp'])
            p['ops'] = [['data'] if o[0] == 'data' else ['idx', o[1] % n] for o in p['ops'] if o[0] in ('data', 'idx')]
        nh = rng.randint(1, 3); readers = []
        hs = [dict(camp=rng.randrange(len(c['camps'])), shared=0, pp=rng.pick([0, 1, 2])) for _ in range(nh)]
        for r in range(rng.randint(1, 4)):
            h = rng.randrange(nh); ops = []
            for _ in range(rng.randint(1, 9)):
                k = rng.weighted([('int', 3), ('slice', 2), ('all', 3), ('list', 1.5), ('filter', 3), ('pp', 1), ('sleep', 3), ('switch', .7), ('bad', .5)])
                if k == 'int': ops.append([k, rng.randint(-n, n - 1)])
                elif k == 'slice': a, b = sorted([rng.randint(0, n), rng.randint(0, n)]); ops.append([k, a, b, rng.pick([1, 1, 2, -1])])
                elif k == 'list': ops.append([k, [rng.randint(-n, n - 1) for _ in range(rng.randint(0, 4))], rng.pick(['list', 'tuple'])])
                elif k == 'filter': ops.append([k, rng.randint(0, 5), rng.randrange(n)])
                elif k == 'pp': ops.append([k, rng.randint(0, 3)])
                elif k == 'sleep': ops.append([k, rng.pick([0.0, 0.1, 0.5, 1.0])])
                elif k == 'switch': ops.append([k, rng.randrange(len(c['camps']))])
                else: ops.append([k])
            readers.append(dict(h=h, at=rng.pick([0.0, 0.0, 0.2, 1.0, 3.0]), ops=ops))
        for k, h in enumerate(hs): h['shared'] = int(sum(r['h'] == k for r in readers) > 1)
        c['handlers'] = hs; c['readers'] = readers
        return c
    def simplify(self, case):
        yield from CampaignCheck.simplify(self, case)

    def scenario(self, case):
        dm, sim, n = self.dm, self.sim, case['n']
        self.plan = [{'a': i, 'b': i * 0.25, 'id': d} for i, d in enumerate(ids_of(case))]
        self.camps = case['camps']; self.live = []; self.by = {}; self.state = {}; self.done_at = {}
        self.files = {}
        for ci, c in enumerate(self.camps):
            for i in range(n):
                self.files[os.path.join(self.root, c['dir']) + '%s_%s%s' % (c['name'], self.plan[i]['id'], '.pkl' if c['fmt'] == 'pickle' else '.mat')] = (ci, i)
        self.versions = {ci: {v for p in case['procs'] for v in [p['v']] + [o[1] for o in p['ops'] if o[0] == 'fun'] if p['camp'] == ci or ['to', ci] in p['ops']} | {99} for ci in range(len(self.camps))}
        self.tick = 0
        hs = []
        for h in case['handlers']:
            c = self.camps[h['camp'] % len(self.camps)]
            d = dm.sampling.DataHandler(self.plan)
            d.set_param(data_dir=os.path.join(self.root, c['dir']), sample_name=c['name'], save_format=c['fmt'])
            H = dict(dh=d, camp=h['camp'] % len(self.camps), pp={}, shared=h['shared'])
            for k in range(h['pp']): self.setpp(H, k)
            hs.append(H)
        self.hs = hs
        done = []
        class RP: pass
        rps = []
        for k, r in enumerate(case['readers']):
            rp = P('r%d' % k); rp.reader = True; rps.append(rp)
            def fn(r=r, rp=rp):
                sim.sleep(r['at'])
                try:
                    for op in r['ops']: self.query(rp, hs[r['h'] % len(hs)], op)
                except (sched.SimAbort, sched.SimKill): raise
                except BaseException as e: self.err.append(e)
                finally: rp.done = True
            sim.spawn(fn, 'reader%d' % k, proc=rp)
        self.run_procs(case['procs'], self.body)
        while not all(r.done for r in rps): sim.sleep(0.25)
        self.fsrc.enabled = False
        # the campaign is completed without faults; every handler, whatever it saw before, must now return everything
        for ci in range(len(self.camps)):
            p = P('final%d' % ci); p.final = True
            try: self.body(p, dict(camp=ci, ow=0, v=99, fail=[], dur=0.0, failkind='raise', ops=[['data']]), proc_thread=False)
            except (sched.SimAbort, sched.SimKill): raise
            except Exception as e:
                if not in_domain(e.__traceback__): raise
        last = P('last'); last.reader = True
        for H in hs:
            for op in (['all'], ['int', n - 1], ['filter', 0, 0]): self.query(last, H, op)

    def setpp(self, H, k):
        f = {0: lambda res: ('one', res), 1: lambda sample, res: ('two', sample['id'], res), 2: lambda res: ('three', res), 3: lambda case, r: ('four', case['a'], r)}[k]
        name = ['p', 'q', 'p', 'r'][k]
        H['dh'].set_post_processing(name, f); H['pp'][name] = k

    def on_change(self, op, path):
        self.tick += 1
        for f, (ci, i) in self.files.items():
            if (ci, i) in self.done_at: continue
            try: d = fsim.raw_read(f)
            except (FileNotFoundError, NotADirectoryError): continue
            v = self.loadfile(f, d)
            if v is not None and not str(v).startswith('foreign'): self.done_at[(ci, i)] = self.tick; self.state[f] = (d, v)
    def complete(self, *a): self.out.stats['completed_runs'] += 1

    def query(self, rp, H, op):
        sim, n = self.sim, self.case['n']; dh = H['dh']; k = op[0]
        if k == 'sleep': sim.sleep(op[1]); return
        if k == 'pp':
            if not H['shared']: self.setpp(H, op[1])
            return
        if k == 'switch':
            if not H['shared']:
                c = self.camps[op[1] % len(self.camps)]
                dh.set_param(data_dir=os.path.join(self.root, c['dir']), sample_name=c['name'], save_format=c['fmt']); H['camp'] = op[1] % len(self.camps)
            return
        infl = outf = None
        if k == 'int': sel = [self.plan[op[1] % n if op[1] >= 0 else op[1] % n]]; arg = op[1] if -n <= op[1] < n else 0; sel = [self.plan[arg]]
        elif k == 'slice': arg = slice(op[1], op[2], op[3]); sel = self.plan[arg]
        elif k == 'all': arg = slice(None); sel = self.plan
        elif k == 'list':
            ix = [j for j in op[1] if -n <= j < n]; arg = ix if op[2] == 'list' else tuple(ix); sel = [self.plan[j] for j in ix]
        elif k == 'bad': arg = 10 ** 6; sel = None
        elif k == 'filter':
            m = op[2]
            def infl(a):
                keep = a >= m
                return keep
            if op[1] in (1,): infl = None
            if op[1] == 2: infl = lambda b, a: b >= m * 0.25 and a >= 0
            if op[1] in (3, 4):
                outf = (lambda id: int(id) % 2 == 0) if op[1] == 3 else (lambda a, id: bool(np.bool_(a == int(id))))
            if op[1] == 5: infl = lambda a: np.bool_(a == m)
            sel = [s for s in self.plan if (infl is None or bool(infl(**{x: s[x] for x in (('a',) if op[1] != 2 else ('b', 'a'))})))]
            if op[1] == 3: sel = [s for s in sel if int(s['id']) % 2 == 0]
            if op[1] == 4: sel = [s for s in sel if s['a'] == int(s['id'])]
        f0 = rp.faults; t0 = self.tick; before = dict(self.done_at)
        exc = None; res = None
        try:
            res = dh.filter(infl, outf) if k == 'filter' else dh[arg]
        except (sched.SimAbort, sched.SimKill): raise
        except BaseException as e: exc = e
        self.out.stats['queries'] += 1
        what = 'query %s' % (op,)
        if exc is not None:
            if k == 'bad': return
            if rp.faults == f0:
                import traceback
                self.V('query-failed', '%s raised although no read error was injected: %s' % (what, ''.join(traceback.format_exception(exc))[-500:]))
            else: self.out.stats['queries_failed_by_fault'] += 1
            return
        if k == 'bad': return
        if not isinstance(res, list) or len(res) != len(sel):
            self.V('selection', '%s returned %s records instead of %d' % (what, len(res) if hasattr(res, '__len__') else res, len(sel))); return
        ci = H['camp']; fmt = self.camps[ci]['fmt']
        for s, r in zip(sel, res):
            i = s['a']
            if any(x not in r or r[x] != s[x] for x in s):
                self.V('wrong-case', '%s returned the case %s at the position of case %s' % (what, {x: r.get(x) for x in s}, s)); return
            outs = set(r) - set(s)
            if outs != (set(H['pp']) or {'res'}):
                self.V('fields', '%s returned the fields %s, post-processing is %s' % (what, sorted(outs), sorted(H['pp']))); return
            for name in sorted(outs):
                v = r[name]
                if name == 'res': raw = v
                elif v is None: raw = None
                else:
                    kind = H['pp'][name]
                    head = {0: ('one',), 1: ('two', s['id']), 2: ('three',), 3: ('four', i)}[kind]
                    if not isinstance(v, tuple) or v[:-1] != head:
                        self.V('post-processing', '%s: field %s of case %d is %s, expected the result of function %d' % (what, name, i, short(v), kind)); return
                    raw = v[-1]
                if raw is None:
                    if (ci, i) in before:
                        self.V('stale-missing', '%s reports case %d as missing although its sample was complete before the query' % (what, i)); return
                    self.out.stats['reported_missing'] += 1
                else:
                    if not any(self.same(raw, ver, i, fmt) for ver in self.versions[ci]):
                        self.V('wrong-result', '%s returned %s for case %d of campaign %s' % (what, short(raw), i, self.camps[ci])); return
                    if (ci, i) not in self.done_at:
                        self.V('premature', '%s returned a result for case %d whose sample is not complete' % (what, i)); return

class PlannerCheck(FsCheck):
    """S04"""
    pid = 'S04'
    real = ['do_mpc.sampling.SamplingPlanner', 'do_mpc.tools.save_pickle/load_pickle', 'pickle']
    rule = ('one run = 1-4 processes building plans (adding, generating, products, failing value generators, invalid arguments) and exporting them into shared directories '
            'with kills, I/O faults and interleavings; non-trivial: a fault was injected or a switch forced, and more than 5 file operations were made')
    def gen(self, rng, idx, tier):
        procs = []
        ow = rng.chance(.3)
        for k in range(rng.randint(1, 4)):
            nv = rng.randint(1, 4); ops = []
            gens = [rng.pick(['fun', 'fun', 'none', 'builtin']) for _ in range(nv)]
            for _ in range(rng.randint(1, 10)):
                o = rng.weighted([('add', 3), ('gen', 2), ('product', 2), ('export', 4), ('badadd', .5), ('badgen', .4), ('badprod', .5), ('var', .4), ('prec', .4), ('ow', .3 if ow else 0)])
                if o == 'add': ops.append([o, [j for j in range(nv) if rng.chance(.5)]])
                elif o == 'gen': ops.append([o, rng.randint(1, 4)])
                elif o == 'product': ops.append([o, [[j, rng.randint(0, 3)] for j in range(nv) if rng.chance(.5)]])
                elif o == 'export': ops.append([o, rng.pick(['plan', 'plan', 'plan', 'p2', 'plan.pkl', 'plan1', 'x y', 'plan.v1.pkl', 'plan.v2.pkl', 'plan_1'])])
                elif o == 'var': ops.append([o, rng.pick(['fun', 'none'])])
                elif o == 'prec': ops.append([o, rng.randint(1, 5)])
                elif o == 'ow': ops.append([o, rng.randint(0, 1)])
                else: ops.append([o])
            procs.append(dict(gens=gens, ops=ops, dir=rng.pick(['d/', 'd/', 'd/', 'q.pkl/']), ow=int(ow and rng.chance(.5)), at=rng.pick([0.0, 0.0, 0.1, 1.0]),
                              fail=sorted({rng.randrange(20) for _ in range(rng.pick([0, 0, 1, 3]))})))
        return dict(seed=rng.getrandbits(48), procs=procs, sched=self.sched_params(rng), budget=rng.pick([1, 2, 5]))

    def scenario(self, case):
        self.state = {}; self.exports = []; self.ow_used = any(p['ow'] or any(o[0] == 'ow' and o[1] for o in p['ops']) for p in case['procs'])
        self.known = []; self.latest = {}
        self.run_procs(case['procs'], self.body)
        self.fsrc.enabled = False
        # every export that returned is still there
        with self.quiet(self):
            snap = fsim.snapshot(self.root)
            contents = []
            for f, d in snap.items():
                if f.endswith('.pkl'):
                    try: contents.append((f, pickle.loads(d)))
                    except Exception: pass
            dirs = [p['dir'] for p in case['procs']]
            for (dirn, stem), content in self.latest.items():
                if dirs.count(dirn) == 1 and content is not None and not any(f.startswith(dirn) and c == content for f, c in contents):
                    self.V('export-lost', 'the plan exported last under %r (overwriting) is no longer retrievable; files: %s' % (stem, sorted(f for f, _ in contents))); return
            if not self.ow_used:
                pool = [c for c in contents]
                for who, name, dirn, content, at in self.exports:
                    hit = next((c for c in pool if c[0].startswith(dirn) and c[1] == content), None)
                    if hit is None:
                        self.V('export-lost', 'the plan exported by process %s under %r is no longer retrievable; files: %s' % (who, name, sorted(f for f, _ in contents))); return
                    pool.remove(hit)

    def on_change(self, op, path):
        t = sched.cur_thread(); p = t.proc
        snap = {f: d for f, d in fsim.snapshot(self.root).items() if f.endswith('.pkl')}
        for f, old in list(self.state.items()):
            d = snap.get(f)
            if d == old: continue
            ok = d is not None
            if ok:
                try: c = pickle.loads(d); ok = isinstance(c, list)
                except Exception: ok = False
            if not ok:
                self.V('torn-plan', 'process %s (%s): the exported plan %s is now %s' % (p, op, f, 'gone' if d is None else 'incomplete')); del self.state[f]
            else:
                if p is not None and not p.ow: self.V('overwritten', 'process %s (overwrite off) replaced the exported plan %s' % (p, f))
                self.state[f] = d
        for f, d in snap.items():
            if f in self.state: continue
            try:
                c = pickle.loads(d)
                if isinstance(c, list): self.state[f] = d
            except Exception: pass

    def body(self, p, spec):
        dm, sim = self.dm, self.sim
        sp = dm.sampling.SamplingPlanner()
        while True:
            try: sp.data_dir = os.path.join(self.root, spec['dir']); break
            except OSError: pass
            except KeyboardInterrupt: pass
        p.ow = bool(spec['ow'])
        if p.ow: sp.set_param(overwrite=True)
        cnt = [0]; fail = set(spec['fail']); logs = []; genfail = [0]
        tag = 'proc%s' % p.name
        def mk(j):
            def g():
                k = cnt[0]; cnt[0] += 1
                if k in fail: genfail[0] += 1; self.out.faults['generator-raises'] += 1; raise RuntimeError('injected generator failure')
                v = '%s-v%d-%d' % (tag, j, k); logs.append((j, v)); return v
            return g
        names = []; gens = []
        def addvar(kind):
            j = len(names); nm = 'v%d' % j
            if kind == 'fun': g = mk(j)
            elif kind == 'builtin': g = load.builtin_counter() if False else mk(j)
            else: g = None
            sp.set_sampling_var(nm, g); names.append(nm); gens.append(g)
        for kind in spec['gens']: addvar(kind)
        model = []           # expected cases (without ids)
        given = [0]
        def check(what, lo, expected=None):
            """lo: number of cases before the call; expected: the new cases if the call returned (list of dicts of given values)"""
            plan = sp.sampling_plan
            ids = [c.get('id') for c in plan]
            if len(set(ids)) != len(ids): self.V('duplicate-id', '%s: ids %s are not unique' % (what, ids)); return False
            for k, old in enumerate(model):
                if k >= len(plan) or {a: b for a, b in plan[k].items()} != old: self.V('case-changed', '%s: case %d was %s and is now %s' % (what, k, old, plan[k] if k < len(plan) else None)); return False
            new = plan[lo:]
            for c in new:
                if set(c) != set(names) | {'id'}: self.V('incomplete-case', '%s: the case %s does not have the variables %s' % (what, c, names)); return False
            if expected is not None:
                if len(new) != len(expected): self.V('wrong-cases', '%s: %d new cases instead of %d' % (what, len(new), len(expected))); return False
                lg = list(logs)
                for c, e in zip(new, expected):
                    for nm in names:
                        if nm in e:
                            if c[nm] != e[nm] or type(c[nm]) is not type(e[nm]): self.V('wrong-value', '%s: the case %s does not hold the given value %s=%s' % (what, c, nm, e[nm])); return False
                        else:
                            hit = [l for l in lg if l[0] == int(nm[1:]) and l[1] == c[nm]]
                            if not hit: self.V('wrong-value', '%s: %s=%r of the case %s was not generated for it' % (what, nm, c[nm], c)); return False
                            lg.remove(hit[0])
            del model[:]; model.extend(dict(c) for c in plan)
            return True
        for op in spec['ops']:
            k = op[0]; lo = len(sp.sampling_plan); del logs[:]; gf = genfail[0]
            exp = None; ok = False
            try:
                if k == 'add':
                    kw = {}
                    for j in op[1]:
                        given[0] += 1; kw['v%d' % j] = typed('%s-given-%d' % (tag, given[0]), given[0])
                    exp = [kw]; r = sp.add_sampling_case(**kw); ok = True
                elif k == 'gen': exp = [{}] * op[1]; r = sp.gen_sampling_plan(op[1]); ok = True
                elif k == 'product':
                    kw = {'v%d' % j: [typed('%s-prod-%d-%d-%d' % (tag, lo, j, q), lo + j + q) for q in range(m)] for j, m in op[1]}
                    import itertools
                    exp = [dict(zip(kw, c)) for c in itertools.product(*kw.values())]
                    r = sp.product(**kw); ok = True
                elif k == 'badadd': r = None; sp.add_sampling_case(nosuchvar=1)
                elif k == 'badgen': r = None; sp.gen_sampling_plan(rng_bad(lo))
                elif k == 'badprod': r = None; sp.product(v0=3)
                elif k == 'var':
                    try: addvar(op[1]); continue
                    except KeyboardInterrupt: return       # the user does not know whether the variable was introduced: nothing is demanded of this planner any more
                elif k == 'prec': sp.set_param(id_precision=op[1]); continue
                elif k == 'ow': sp.set_param(overwrite=bool(op[1])); p.ow = bool(op[1]); continue
                elif k == 'export':
                    content = [dict(c) for c in sp.sampling_plan]
                    own = spec['ow'] and not any(o[0] == 'ow' for o in spec['ops']); stem = (spec['dir'], os.path.splitext(op[1])[0])
                    if own: self.latest[stem] = None
                    sp.export(op[1])
                    if own: self.latest[stem] = content
                    self.out.stats['exports'] += 1
                    with self.quiet(self):
                        hit = False
                        for f, d in fsim.snapshot(self.root).items():
                            if f.endswith('.pkl') and f.startswith(spec['dir']):
                                try: hit = hit or dm.tools.load_pickle(os.path.join(self.root, f)) == content
                                except Exception: pass
                        if not hit and not self.ow_used: self.V('export-missing', 'export(%r) returned, but no file holds the plan' % op[1])
                        if not self.ow_used: self.exports.append((p.name, op[1], spec['dir'], content, len(self.exports)))
                    continue
            except (sched.SimAbort, sched.SimKill): raise
            except KeyboardInterrupt: pass
            except Exception as e:
                sim.ev('raised', p.name, k, type(e).__name__); self.out.stats['raised_' + k] += 1
                if k in ('add', 'gen', 'product') and genfail[0] == gf:
                    given_ = set(kw) if k != 'gen' else set()
                    if all(g is not None or nm in given_ for nm, g in zip(names, gens)):
                        self.V('spurious-error', '%s raised %r although nothing was wrong' % (op, e)); return
                if k == 'export' and not isinstance(e, OSError): self.V('spurious-error', 'export(%r) raised %r although nothing was wrong' % (op[1], e)); return
            if k == 'export': continue
            with self.quiet(self):
                if not check('%s of process %s' % (op, p.name), lo, exp if ok else None): return
                if ok and r is not sp.sampling_plan and r != sp.sampling_plan: self.V('returned-plan', '%s returned something else than the plan' % op)

def typed(s, k):
    """values of many types"""
    return [s, k, k + 0.5, [k, s], None, k % 2 == 0, np.float64(k) / 3, (s, k)][k % 8] if k % 3 else s
def rng_bad(k): return [0, -1, 2.5, '3'][k % 4]

def make(pid):
    if pid in ('S01', 'S02'):
        class C(CampaignCheck): pass
    elif pid == 'S03':
        class C(HandlerCheck): pass
    elif pid == 'S04':
        class C(PlannerCheck): pass
    C.pid = pid
    C.runs = {'quick': 7000, 'thorough': 200000}; C.cap = {'quick': 32, 'thorough': 1200}
    return C()

# ------------------------------------------------------------------------------------------------------------------- S05
_OBJ = None
def result_objects():
    """one small Simulator, MPC and StateFeedback with a few recorded steps (built once; every run works on copies of their data)"""
    global _OBJ
    if _OBJ is not None: return _OBJ
    dm = load.load()
    m = dm.model.Model('discrete')
    x = m.set_variable('_x', 'x', shape=(2, 1)); u = m.set_variable('_u', 'u'); p = m.set_variable('_p', 'p')
    m.set_expression('e', x[0] + u)
    m.set_rhs('x', __import__("casadi").vertcat(0.9 * x[0] + 0.1 * x[1], 0.7 * x[1] + p * u))
    m.setup()
    s = dm.simulator.Simulator(m); s.set_param(t_step=0.5)
    pt = s.get_p_template(); pt['p'] = 0.4; s.set_p_fun(lambda t: pt); s.setup()
    c = dm.controller.MPC(m); c.settings.n_horizon = 4; c.settings.t_step = 0.5; c.settings.n_robust = 1; c.settings.store_full_solution = True
    c.settings.supress_ipopt_output()
    c.set_objective(mterm=x[0] ** 2, lterm=x[0] ** 2 + x[1] ** 2); c.set_rterm(u=0.1)
    c.bounds['lower', '_u', 'u'] = -1; c.bounds['upper', '_u', 'u'] = 1
    c.set_uncertainty_values(p=np.array([0.4, 0.5])); c.setup()
    e = dm.estimator.StateFeedback(m)
    x0 = np.array([1.0, -0.5]); s.x0 = x0; c.x0 = x0; c.set_initial_guess()
    for _ in range(3):
        u0 = c.make_step(x0); y = s.make_step(u0); x0 = e.make_step(y)
    _OBJ = dict(s=s, c=c, e=e, pick={k: pickle.dumps(o.data) for k, o in (('s', s), ('c', c), ('e', e))})
    return _OBJ

KEYS = {'s': 'simulator', 'c': 'mpc', 'e': 'estimator'}
def content(d):
    """what a user can read from a data object"""
    out = {k: np.array(v, copy=True) for k, v in d.export().items()}
    out['meta'] = repr(sorted((k, repr(v)) for k, v in d.meta_data.items() if not callable(v)))
    return out

class ResultsCheck(FsCheck):
    """S05"""
    pid = 'S05'
    batch = 15
    real = ['do_mpc.data.save_results/load_results', 'do_mpc.data.Data/MPCData', 'pickle', 'Simulator/MPC/StateFeedback (recorded beforehand)']
    rule = ('one run = 1-4 processes saving the data objects of simulators, controllers and estimators (growing between saves, at times unpicklable) under shared and '
            'separate names and directories, with kills, I/O faults and interleavings; non-trivial: a fault was injected or a switch forced, and more than 5 file operations')
    def prepare(self):
        super().prepare(); result_objects()
    def gen(self, rng, idx, tier):
        ow = rng.chance(.4); procs = []
        for k in range(rng.randint(1, 4)):
            ops = []
            for _ in range(rng.randint(1, 6)):
                o = rng.weighted([('save', 5), ('grow', 2), ('load', 2), ('badlist', .4), ('unpick', .5), ('badarg', .3)])
                if o == 'grow': ops.append([o, rng.pick(['s', 'e', 'c']), rng.randint(1, 400)])
                elif o == 'load': ops.append([o])
                else: ops.append([o, rng.pick(['s', 'sc', 'sce', 'ce', 'e', 'c']), rng.pick(['results', 'results', 'results', 'r.pkl', 'results.v2', '001_results', 'a b']),
                                  rng.pick(['r/', 'r/', 'r/', 'r/x/y/', 'res.pkl/']), int(ow and rng.chance(.6))])
            procs.append(dict(ops=ops, at=rng.pick([0.0, 0.0, 0.1, 1.0])))
        return dict(seed=rng.getrandbits(48), procs=procs, sched=self.sched_params(rng), budget=rng.pick([1, 2, 5]), by=int(rng.chance(.4)), pre=rng.weighted([(0, 8), (2, 1), (9, 1), (12, 1), (21, .5), (101, .1)]))

    def parse(self, data):
        if data not in self.cache: self.cache[data] = self.parse_(data)
        return self.cache[data]
    def parse_(self, data):
        try: r = pickle.loads(data)
        except Exception: return None
        if not isinstance(r, dict) or not r: return None
        try: return {k: content(v) for k, v in r.items()}
        except Exception: return None
    def eq(self, a, b): return a is not None and set(a) == set(b) and all(same(a[k], b[k]) for k in a)

    def scenario(self, case):
        self.state = {}; self.saved = []; self.bydata = {}; self.cache = {}
        self.anyow = any(o[0] != 'grow' and len(o) > 4 and o[4] for p in case['procs'] for o in p['ops'])
        if case['by']:
            with self.quiet(self):
                os.makedirs(os.path.join(self.root, 'r'))
                for n in ('results', 'results.pkl.tmp', 'notes.txt', 'other.pkl', 'results_2.pkl'):
                    f = os.path.join(self.root, 'r', n); self.bydata[f] = b'keep me ' + n.encode()
                    with open(f, 'wb') as h: h.write(self.bydata[f])
        if case.get('pre') and not self.anyow:              # results of many earlier runs
            with self.quiet(self):
                os.makedirs(os.path.join(self.root, 'r'), exist_ok=True)
                for j in range(case['pre']):
                    f = os.path.join(self.root, 'r', ('%03d_results.pkl' % j) if j else 'results.pkl'); self.bydata[f] = b'earlier %d' % j
                    with open(f, 'wb') as h: h.write(self.bydata[f])
        self.run_procs(case['procs'], self.body)
        self.fsrc.enabled = False
        with self.quiet(self):
            for f, b in self.bydata.items():
                try: now = fsim.raw_read(f)
                except FileNotFoundError: now = None
                if now != b: self.V('foreign-file', 'saving results changed the unrelated file %s' % os.path.relpath(f, self.root)); return
            if not self.anyow:
                pool = [(f, self.parse(d)) for f, d in fsim.snapshot(self.root).items() if f.endswith('.pkl')]
                for who, d, name, cont in self.saved:
                    hit = next((x for x in pool if os.path.dirname(x[0]) + '/' == d and self.eq(x[1], cont)), None)
                    if hit is None:
                        self.V('lost', 'the results saved by process %s as %r in %s are no longer stored; files: %s' % (who, name, d, sorted(f for f, _ in pool))); return
                    pool.remove(hit)

    def on_change(self, op, path):
        t = sched.cur_thread(); p = t.proc
        snap = {f: d for f, d in fsim.snapshot(self.root).items() if f.endswith('.pkl') and os.path.join(self.root, f) not in self.bydata}
        for f, old in list(self.state.items()):
            d = snap.get(f)
            if d == old: continue
            if d is None or self.parse(d) is None:
                self.V('torn', 'process %s (%s): the stored results %s are now %s' % (p, op, f, 'gone' if d is None else 'incomplete (%d bytes)' % len(d))); self.state.pop(f); continue
            if p is None or p.cur is None or not p.cur[1]: self.V('overwritten', 'process %s (overwrite off) replaced the stored results %s' % (p, f))
            elif f != p.cur[0]: self.V('foreign-file', 'process %s saving %s replaced %s' % (p, p.cur[0], f))
            self.state[f] = d
        for f, d in snap.items():
            if f not in self.state:
                if self.parse(d) is not None: self.state[f] = d
                else:
                    self.V('torn', 'process %s (%s): the result file %s is incomplete (%d bytes)' % (p, op, f, len(d))); return

    def body(self, p, spec):
        import copy
        dm, sim = self.dm, self.sim; O = result_objects()
        with self.quiet(self):
            objs = {}
            for k in 'sce':
                o = copy.copy(O[k]); o.data = pickle.loads(O['pick'][k]); objs[k] = o
            objs['s'].data.set_meta(owner='process %s' % p.name)
        p.cur = None; mine = []
        for op in spec['ops']:
            k = op[0]
            try:
                if k == 'grow':
                    d = objs[op[1]].data
                    d.update(_time=float(op[2])); d.update(_x=np.full((1, 2), op[2] + 0.5), _u=np.array([[op[2] * 2.0]]))
                    if op[2] > 300: d._x = np.append(d._x, np.full((op[2] * 3, 2), 1.5), axis=0)
                elif k == 'load':
                    for f, c in mine[-2:]:
                        r = dm.data.load_results(os.path.join(self.root, f))
                        with self.quiet(self): good = self.eq({a: content(b) for a, b in r.items()}, c)
                        self.out.stats['loads'] += 1
                        for d in r.values(): d._x = d._x[:0]; d.set_meta(seen=1)        # the loaded object belongs to the caller
                        if not good: self.V('wrong-content', 'load_results of %s differs from what was saved' % f)
                elif k == 'badarg':
                    f0 = self.tree()
                    try: dm.data.save_results(*[([objs['s']], 5, op[3]), (objs['s'], op[2], os.path.join(self.root, op[3])), ([objs['s']], op[2], os.path.join(self.root, op[3]), 1)][len(op[2]) % 3])
                    except AssertionError: pass
                else:
                    lst = [objs[c] for c in op[1]]
                    if k == 'badlist': lst = lst + [object()]
                    if k == 'unpick': objs[op[1][-1]].data.set_meta(hook=lambda: 0)
                    want = {KEYS[c]: content(objs[c].data) for c in op[1]}
                    target = op[3] + op[2] + '.pkl'
                    p.cur = (target, bool(op[4])); pre = dict(self.state)
                    alone = sum(any(len(o) > 3 and o[0] != 'grow' and o[3] == op[3] for o in q['ops']) for q in self.case['procs']) == 1
                    if op[4]: mine[:] = [x for x in mine if x[0] != target]
                    try:
                        dm.data.save_results(lst, op[2], os.path.join(self.root, op[3]), bool(op[4]))
                        p.cur = None
                        self.out.stats['saves'] += 1
                        if k != 'save': self.V('accepted', 'save_results of %s returned normally' % k); return
                        with self.quiet(self):
                            snap = {f: d for f, d in fsim.snapshot(self.root).items() if f.endswith('.pkl')}
                            hits = [f for f, d in snap.items() if os.path.dirname(f) + '/' == op[3] and os.path.basename(f).endswith(op[2] + '.pkl') and self.eq(self.parse(d), want)]
                            if op[4]: hits = [f for f in hits if f == target]
                        if not hits and not self.anyow: self.V('missing', 'save_results(%r) returned, but no file in %s holds the results' % (op[2], op[3])); return
                        if not hits and op[4] and sum(1 for q in self.case['procs'] for o in q['ops'] if o[0] in ('save', 'unpick', 'badlist') and o[2:4] == op[2:4]) == 1:
                            self.V('missing', 'save_results(%r, overwrite) returned, but %s does not hold the results' % (op[2], target)); return
                        if not self.anyow: self.saved.append((p.name, op[3], op[2], want))
                        if hits and (alone or not self.anyow): mine.append((hits[0], want))
                    finally:
                        p.cur = None
                        if k == 'unpick': objs[op[1][-1]].data.meta_data.pop('hook', None)
            except (sched.SimAbort, sched.SimKill): raise
            except KeyboardInterrupt: pass
            except Exception as e:
                sim.ev('raised', p.name, k, type(e).__name__); self.out.stats['raised_' + k] += 1
                if k == 'save' and p.faults == 0:
                    import traceback
                    self.V('save-failed', 'save_results raised although no fault was injected: %s' % traceback.format_exc()[-500:]); return
    def tree(self): return None

_make = make
def make(pid):
    if pid != 'S05': return _make(pid)
    class C(ResultsCheck): pass
    C.pid = pid; C.runs = {'quick': 2000, 'thorough': 100000}; C.cap = {'quick': 32, 'thorough': 1200}
    return C()
