"""Deterministic scheduler: real OS threads, but exactly one holds the baton; who runs next, when a running thread
is pre-empted or stalled, and what time it is, is decided by the seeded scheduler alone.

Virtual time only advances when no thread is runnable (discrete-event).  A "stalled" thread is put to sleep for a
drawn virtual duration at an arbitrary statement, which is how slow threads and timers firing in the middle of other code arise.

Decision points are numbered; every decision that deviates from the default policy (keep running the current thread; if it
blocks, run the longest waiting one) is recorded as (number, action).  Re-running with that list as `plan` and no randomness gives the
same execution, and removing entries from the list is how schedules are minimised.
"""
import sys, gc, itertools, ast, _thread, types, builtins, importlib.util, os, heapq, traceback

class SimKill(BaseException):
    """The simulated process was killed: nothing it does after this instant has an effect."""
class SimAbort(BaseException):
    """The run is over (limit, deadlock or end of observation)."""

EPOCH = 1_700_000_000.0

class SimThread:
    __slots__ = ('id', 'name', 'gate', 'state', 'deadline', 'killed', 'proc', 'exc', 'timed_out', 'order', 'waitq', 'fn', 'inject', 'mark', 'nstall')
    def __init__(self, id, name, proc, fn):
        self.id = id; self.name = name; self.proc = proc; self.fn = fn
        self.gate = _thread.allocate_lock(); self.gate.acquire()
        self.state = 'ready'; self.deadline = None; self.killed = False; self.exc = None
        self.timed_out = False; self.order = 0; self.waitq = None; self.inject = None
        self.mark = None; self.nstall = False

_tls = _thread._local()
CURRENT = None           # the active Sim of this process (one at a time)
HOOK = None              # statement hook for runs without a Sim (interrupts at arbitrary statements)

def statement_point(site):
    """inserted by the loader in front of every statement of do_mpc (and of the simulated threading module)"""
    s = CURRENT
    if s is not None:
        t = getattr(_tls, 't', None)
        if t is not None and s.current is t: s._line(t, site)
    elif HOOK is not None: HOOK(site)

def expr_point(site, value):
    """inserted around call results: lets others run between the evaluation of a call and the use of its value"""
    s = CURRENT
    if s is not None and s.fine:
        t = getattr(_tls, 't', None)
        if t is not None and s.current is t: s._line(t, site)
    return value

class _Instrument(ast.NodeTransformer):
    def __init__(self, name, exprs): self.name = name; self.exprs = exprs; self.depth = 0
    def _pt(self, node):
        c = ast.Expr(ast.Call(ast.Name('__dst_pt__', ast.Load()), [ast.Constant('%s:%d' % (self.name, node.lineno))], []))
        return ast.fix_missing_locations(ast.copy_location(c, node))
    def _body(self, body, doc=False):
        out = []
        for k, st in enumerate(body):
            st2 = self.visit(st)
            isdoc = doc and k == 0 and isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant) and isinstance(st.value.value, str)
            if self.depth and not isdoc: out.append(self._pt(st))
            out.append(st2)
        return out
    def visit_FunctionDef(self, n):
        self.depth += 1
        n.body = self._body(n.body, True)
        self.depth -= 1
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        n.body = self._body(n.body)
        self.depth = d
        return n
    def visit_Lambda(self, n): return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if not (self.exprs and self.depth): return n
        f = n.func
        if isinstance(f, ast.Name) and f.id in ('super', 'locals', 'globals', 'vars', 'dir', '__dst_pt__', 'isinstance', 'len', 'type'): return n
        c = ast.Call(ast.Name('__dst_ex__', ast.Load()), [ast.Constant('%s:%d*' % (self.name, n.lineno)), n], [])
        return ast.fix_missing_locations(ast.copy_location(c, n))
    def generic_visit(self, n):
        for field in ('body', 'orelse', 'finalbody'):
            v = getattr(n, field, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(n, field, self._body(v))
        for field, v in ast.iter_fields(n):
            if isinstance(v, list):
                if v and isinstance(v[0], ast.stmt): continue
                setattr(n, field, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(n, field, self.visit(v))
        return n
    def visit_Module(self, n):
        n.body = [self.visit(x) for x in n.body]
        return n

def instrument(src, path, exprs=True):
    tree = ast.parse(src, path)
    tree = _Instrument(os.path.basename(path), exprs).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)

def cur_thread():
    return getattr(_tls, 't', None)

class Sim:
    def __init__(self, rng=None, plan=None, preempt_p=0.0, stall_p=0.0, stall_max=1.0, max_steps=200_000, max_lines=4_000_000, max_time=1e7):
        self.rng = rng
        self.plan = None if plan is None else {int(d[0]): tuple(d[1:]) for d in plan}
        self.preempt_p = preempt_p; self.stall_p = stall_p; self.stall_max = stall_max
        self.mono = 0.0; self.wall_off = 0.0
        self.threads = []; self.next_id = 1
        self.current = None
        self.done_gate = _thread.allocate_lock(); self.done_gate.acquire()
        self.n = 0                    # decision counter
        self.dev = []                 # recorded deviations [[n, action...]]
        self.log = []                 # event log
        self.steps = 0; self.lines = 0
        self.max_steps = max_steps; self.max_lines = max_lines; self.max_time = max_time
        self.aborting = None
        self.order = 0
        self.thread_excs = []
        self.switches = 0; self.stalls = 0
        self.sites = set()            # (prev site, next site) pairs around context switches: interleaving coverage
        self.countdown = 0
        self.dead_procs = set()
        self.on_line = None           # optional hook(frame) for fault injection at statements
        self._reset_countdown()
        self.nopreempt = 0
        self.fine = False

    # ------------------------------------------------------------------ clock
    def monotonic(self): return self.mono
    def wall(self): return EPOCH + self.mono + self.wall_off
    def jump_wall(self, d):
        self.wall_off += d; self.ev('clock-jump', d)

    # ------------------------------------------------------------------ log
    def ev(self, *what):
        t = cur_thread()
        self.log.append((round(self.mono, 9), t.id if t else 0) + what)

    # ------------------------------------------------------------------ threads
    def spawn(self, fn, name=None, proc=None):
        me = cur_thread()
        if proc is None and me is not None: proc = me.proc
        t = SimThread(self.next_id, name or 'T%d' % self.next_id, proc, fn); self.next_id += 1
        t.order = self.order; self.order += 1
        self.threads.append(t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        _tls.t = t
        t.gate.acquire()
        try:
            try:
                self._check(t)
                t.fn()
            finally:
                pass
        except (SimKill, SimAbort):
            pass
        except BaseException as e:       # harness threads report through thread_excs
            t.exc = e
            self.thread_excs.append((t.name, e))
        t.state = 'done'
        self.threads.remove(t)
        t.fn = None
        for q in (t.waitq,):
            pass
        try:
            self._next(t)
        except SimAbort:
            pass

    def run(self, main, name='main'):
        global CURRENT
        assert CURRENT is None
        reset_modules()
        CURRENT = self
        gc.collect(); gc.disable()     # finalizers and weakref callbacks must not run at history dependent places
        try:
            self.spawn(main, name)
            self._next(None)
            self.done_gate.acquire()
        finally:
            CURRENT = None
            gc.enable()

    # ------------------------------------------------------------------ core
    def _ready(self):
        return [t for t in self.threads if t.state == 'ready']

    def _wake_due(self):
        for t in self.threads:
            if t.state == 'blocked' and t.deadline is not None and t.deadline <= self.mono + 1e-12:
                t.timed_out = True; self._make_ready(t)

    def _make_ready(self, t):
        t.state = 'ready'; t.deadline = None
        t.order = self.order; self.order += 1
        if t.waitq is not None:
            try: t.waitq.remove(t)
            except ValueError: pass
            t.waitq = None

    def _pick(self, cands):
        """choose among >= 1 runnable threads (the default: the longest waiting)"""
        default = min(cands, key=lambda t: t.order)
        if len(cands) == 1: return default
        self.n += 1
        if self.plan is not None:
            act = self.plan.get(self.n)
            if act and act[0] == 'run':
                for t in cands:
                    if t.id == act[1]:
                        self.dev.append([self.n, 'run', t.id]); return t
            return default
        if self.rng is not None:
            t = self.rng.pick(cands)
            if t is not default: self.dev.append([self.n, 'run', t.id])
            return t
        return default

    def _abort_all(self, why):
        if self.aborting is None:
            self.aborting = why
            self.log.append((round(self.mono, 9), 0, 'abort', why))
        for t in self.threads:
            if t.state == 'blocked': self._make_ready(t)

    def _next(self, cur):
        """hand the baton on; cur is blocked or done (or None at the start)"""
        while True:
            self.steps += 1
            if self.steps > self.max_steps: self._abort_all('step-limit')
            cands = self._ready()
            if cands: break
            if not self.threads:
                self.done_gate.release(); return
            dl = [t.deadline for t in self.threads if t.state == 'blocked' and t.deadline is not None]
            if not dl:
                self._abort_all('deadlock'); continue
            self.mono = max(self.mono, min(dl))
            if self.mono > self.max_time: self._abort_all('time-limit'); continue
            self._wake_due()
        nxt = self._pick(cands)
        if nxt is cur:
            return
        self.current = nxt
        self.switches += 1
        nxt.gate.release()
        if cur is not None and cur.state != 'done':
            cur.gate.acquire()

    def _check(self, t):
        if self.aborting is not None: raise SimAbort(self.aborting)
        if t.killed: raise SimKill()
        if t.inject is not None:
            e, t.inject = t.inject, None
            raise e

    def block(self, waitq=None, timeout=None):
        """park the current thread until made ready or the timeout passes; returns True if woken, False on timeout"""
        t = cur_thread()
        self._check(t)
        if timeout is not None and not t.nstall: t.mark = None
        t.state = 'blocked'; t.timed_out = False
        t.deadline = None if timeout is None else self.mono + max(0.0, timeout)
        t.waitq = waitq
        if waitq is not None: waitq.append(t)
        if t.deadline is not None and t.deadline <= self.mono:
            t.timed_out = True; self._make_ready(t)
        self._next(t)
        self._check(t)
        return not t.timed_out

    def wake(self, t):
        if t.state == 'blocked': t.timed_out = False; self._make_ready(t)

    def sleep(self, d):
        self.block(None, max(0.0, d))

    def point(self, force=False):
        """a place where another thread may run (lock operations, I/O, sends)"""
        t = cur_thread()
        if t is None: return
        self._check(t)
        if self.nopreempt: return
        cands = self._ready()
        if len(cands) <= 1: return
        self.n += 1
        if self.plan is not None:
            act = self.plan.get(self.n)
            if act and act[0] == 'to':
                for c in cands:
                    if c.id == act[1] and c is not t:
                        self.dev.append([self.n, 'to', c.id]); self._switch(t, c); return
            return
        if self.rng is None: return
        c = self.rng.pick(cands)
        if c is not t:
            self.dev.append([self.n, 'to', c.id]); self._switch(t, c)

    def _switch(self, t, c):
        self.steps += 1
        if self.steps > self.max_steps: self._abort_all('step-limit'); self._check(t)
        t.order = self.order; self.order += 1
        self.current = c; self.switches += 1
        c.gate.release(); t.gate.acquire()
        self._check(t)

    # ------------------------------------------------------------------ statement-level pre-emption
    def _reset_countdown(self):
        self.countdown = self.rng.geometric(self.preempt_p) if (self.rng and self.plan is None and self.preempt_p > 0) else (1 << 60)

    def _line(self, t, site):
        self.lines += 1
        if self.aborting is not None or t.killed or t.inject is not None: self._check(t)
        if self.lines > self.max_lines:
            self._abort_all('line-limit'); self._check(t)
        if self.on_line is not None: self.on_line(t, site)
        if self.nopreempt: return
        self.n += 1
        act = None
        if self.plan is not None:
            act = self.plan.get(self.n)
            if act is None or act[0] not in ('to', 'stall'): return
        else:
            self.countdown -= 1
            if self.countdown > 0: return
            self._reset_countdown()
            if self.stall_p and self.rng.random() < self.stall_p:
                act = ('stall', round(self.rng.random() ** 2 * self.stall_max, 4))
            else:
                cands = [c for c in self._ready() if c is not t]
                if not cands: return
                act = ('to', self.rng.pick(cands).id)
        self.sites.add((site, act[0]))
        if act[0] == 'stall':
            self.dev.append([self.n, 'stall', act[1]]); self.stalls += 1
            self.ev('stall', act[1])
            t.nstall = True
            try: self.sleep(act[1])
            finally: t.nstall = False
        else:
            for c in self._ready():
                if c.id == act[1] and c is not t:
                    self.dev.append([self.n, 'to', c.id]); self._switch(t, c); return

    # ------------------------------------------------------------------ process kill
    def kill_proc(self, proc):
        self.dead_procs.add(proc)
        self.ev('kill', proc)
        for t in self.threads:
            if t.proc == proc:
                t.killed = True
                if t.state == 'blocked': self._make_ready(t)

# ---------------------------------------------------------------------- simulated _thread / threading / time / queue ...
def _sim():
    s = CURRENT
    return s if (s is not None and cur_thread() is not None) else None

class SimLock:
    """replacement for _thread.lock"""
    def __init__(self):
        self._locked = False; self._q = []
    def acquire(self, blocking=True, timeout=-1):
        s = _sim()
        if s is None:
            if self._locked:
                if not blocking: return False
                raise RuntimeError('simulated lock would block outside the simulation')
            self._locked = True; return True
        if blocking and timeout is not None and timeout < -1 and timeout != -1:
            raise ValueError('timeout value must be a non-negative number')
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        s.point()
        if not self._locked:
            self._locked = True; return True
        if not blocking: return False
        end = None if timeout is None or timeout < 0 else s.mono + timeout
        while self._locked:
            if end is None: s.block(self._q)
            else:
                left = end - s.mono
                if left <= 0: return False
                if not s.block(self._q, left) and self._locked: return False
        self._locked = True
        return True
    acquire_lock = acquire
    def release(self):
        if not self._locked: raise RuntimeError('release unlocked lock')
        self._locked = False
        s = CURRENT
        if s is not None:
            if self._q: s.wake(self._q[0])
            if cur_thread() is not None and s.aborting is None and not cur_thread().killed:
                s.point()
    release_lock = release
    def locked(self): return self._locked
    locked_lock = locked
    def __enter__(self): self.acquire(); return self
    def __exit__(self, *a): self.release()
    def _at_fork_reinit(self): self._locked = False; self._q = []
    def __repr__(self): return '<simlock %s>' % self._locked

def _fake_thread_module():
    m = types.ModuleType('_thread')
    m.error = RuntimeError
    m.LockType = SimLock
    m.TIMEOUT_MAX = _thread.TIMEOUT_MAX
    m.allocate_lock = m.allocate = SimLock
    m._local = _thread._local
    m._excepthook = _thread._excepthook
    m._ExceptHookArgs = _thread._ExceptHookArgs
    m.stack_size = lambda *a: 0
    m.daemon_threads_allowed = lambda: True
    m._is_main_interpreter = lambda: True
    def get_ident():
        t = cur_thread()
        return (10_000_000 + t.id) if t is not None else _thread.get_ident()
    m.get_ident = get_ident
    m.get_native_id = get_ident
    m._count = lambda: len(CURRENT.threads) if CURRENT else 1
    def interrupt_main(*a): raise RuntimeError('not simulated')
    m.interrupt_main = interrupt_main
    def _set_sentinel():
        l = SimLock()
        t = cur_thread()
        if t is not None: _SENTINELS.setdefault((id(CURRENT), t.id), []).append(l)
        return l
    m._set_sentinel = _set_sentinel
    def start_new_thread(fn, args, kwargs={}):
        s = _sim()
        if s is None: raise RuntimeError('do-mpc started a thread outside the simulation')
        s.ev('thread-start')
        def body():
            t = cur_thread()
            try:
                fn(*args, **kwargs)
            finally:
                for l in _SENTINELS.pop((id(s), t.id), ()):
                    if l._locked:
                        l._locked = False
                        for w in list(l._q): s.wake(w)
        t = s.spawn(body)
        s.point()
        return 10_000_000 + t.id
    m.start_new_thread = m.start_new = start_new_thread
    def exit_(): raise SystemExit
    m.exit = exit_
    return m
_SENTINELS = {}

def _fake_time_module():
    import time as rt
    m = types.ModuleType('time')
    for k in dir(rt):
        if not k.startswith('__'): setattr(m, k, getattr(rt, k))
    def wall():
        s = CURRENT
        return s.wall() if s is not None else rt.time()
    def mono():
        s = CURRENT
        return s.mono + 1000.0 if s is not None else rt.monotonic()
    def sleep(d):
        s = _sim()
        if d < 0: raise ValueError('sleep length must be non-negative')
        if s is not None: s.sleep(d)
        elif CURRENT is None: rt.sleep(d)
    def cpu():            # processor time: does not pass while a thread waits
        s = CURRENT
        return s.lines * 1e-6 if s is not None else rt.process_time()
    m.time = wall; m.monotonic = mono; m.perf_counter = mono; m.process_time = cpu; m.thread_time = cpu
    for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time'):
        f = getattr(m, n)
        setattr(m, n + '_ns', (lambda f: lambda: int(round(f() * 1e9)))(f))
    m.sleep = sleep
    m.localtime = lambda *a: rt.localtime(*(a or (wall(),)))
    m.gmtime = lambda *a: rt.gmtime(*(a or (wall(),)))
    m.ctime = lambda *a: rt.ctime(*(a or (wall(),)))
    m.strftime = lambda fmt, *a: rt.strftime(fmt, *(a or (m.localtime(),)))
    return m

def _load_copy(name, repl):
    """execute a private copy of a stdlib module whose imports are redirected to simulated ones"""
    spec = importlib.util.find_spec(name)
    src = open(spec.origin).read()
    mod = types.ModuleType(name)
    mod.__file__ = spec.origin
    mod.__package__ = name.rpartition('.')[0] if not spec.submodule_search_locations else name
    mod.__builtins__ = builtins_with(repl)
    code = instrument(src, '<sim>/' + spec.origin, exprs=False)
    exec(code, mod.__dict__)
    return mod

def builtins_with(repl):
    b = dict(vars(builtins))
    real = builtins.__import__
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in repl:
                if repl[name] is None: raise ImportError(name)
                if fromlist or '.' not in name: return repl[name]
                top = name.split('.')[0]
                return repl.get(top) or real(name, globals, locals, fromlist, level)
            if name == 'concurrent.futures' or name == 'concurrent':
                pass
        return real(name, globals, locals, fromlist, level)
    b['__import__'] = imp
    b['__dst_pt__'] = statement_point
    b['__dst_ex__'] = expr_point
    return b

def reset_modules():
    """forget everything the simulated threading module remembers of earlier runs in this process"""
    _SENTINELS.clear()
    if _MODS is None: return
    th = _MODS['threading']
    for k, v in list(vars(th).items()):
        if isinstance(v, SimLock): v._locked = False; v._q = []
        elif hasattr(v, '_at_fork_reinit') and hasattr(v, '_owner'): v._at_fork_reinit()
    for k in ('_active', '_limbo', '_dangling', '_shutdown_locks'):
        if hasattr(getattr(th, k, None), 'clear'): getattr(th, k).clear()
    if hasattr(th, '_counter'): th._counter = itertools.count(1).__next__
    if hasattr(th.Thread, '_name_counter'): pass
    cft = _MODS['concurrent.futures.thread']
    if hasattr(cft, '_threads_queues'): cft._threads_queues.clear()
    for m in (cft, _MODS['concurrent.futures._base']):
        for k, v in vars(m).items():
            if isinstance(v, SimLock): v._locked = False; v._q = []
    cft.ThreadPoolExecutor._counter = itertools.count().__next__

_MODS = None
def sim_modules():
    """{'threading': ..., 'time': ..., ...}: the modules the code under test sees"""
    global _MODS
    if _MODS is None:
        th, tm = _fake_thread_module(), _fake_time_module()
        repl = {'_thread': th, 'time': tm, '_queue': None}
        # sim threads are kept out of the interpreter's own at-fork hooks
        threading = _load_copy('threading', repl)
        repl['threading'] = threading
        repl['queue'] = _load_copy('queue', repl)
        repl['sched'] = _load_copy('sched', repl)
        base = _load_copy('concurrent.futures._base', repl)
        repl['concurrent.futures._base'] = base
        import concurrent.futures as cf
        # thread pool on simulated threads
        spec = importlib.util.find_spec('concurrent.futures.thread')
        src = open(spec.origin).read().replace('from concurrent.futures import _base', 'import concurrent.futures._base as _base')
        cft = types.ModuleType('concurrent.futures.thread'); cft.__file__ = spec.origin
        fut = types.ModuleType('concurrent.futures')
        conc = types.ModuleType('concurrent'); conc.futures = fut; fut._base = base
        b = builtins_with(repl)
        inner = b['__import__']
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if name == 'concurrent.futures._base' and not fromlist: return conc
            return inner(name, globals, locals, fromlist, level)
        b['__import__'] = imp
        cft.__builtins__ = b
        exec(compile(src.replace('import concurrent.futures._base as _base', 'from concurrent.futures._base import __dict__ as _d\nimport types as _ty\n_base=_ty.SimpleNamespace(**_d)'), '<sim>/cft', 'exec'), cft.__dict__)
        for k in ('FIRST_COMPLETED', 'FIRST_EXCEPTION', 'ALL_COMPLETED', 'CancelledError', 'TimeoutError', 'Future', 'Executor', 'wait', 'as_completed'):
            setattr(fut, k, getattr(base, k))
        fut.ThreadPoolExecutor = cft.ThreadPoolExecutor
        fut.ProcessPoolExecutor = cf.ProcessPoolExecutor
        fut.thread = cft
        repl['concurrent.futures'] = fut; repl['concurrent'] = conc; repl['concurrent.futures.thread'] = cft
        repl['_queue'] = None
        def hook(args):
            s = CURRENT
            if args.exc_type is not None and issubclass(args.exc_type, (SimKill, SimAbort)):
                return
            if s is not None:
                s.thread_excs.append((getattr(args.thread, 'name', '?'), args.exc_value))
                s.ev('thread-exception', args.exc_type.__name__)
        threading.excepthook = hook
        _MODS = repl
    return _MODS
