"""Import /repo's do_mpc with every source of nondeterminism behind a seam the simulator owns.

* `threading`, `time`, `queue`, `sched`, `concurrent.futures` seen by do_mpc are the simulated ones;
* `subprocess` seen by do_mpc is a proxy (compiler outcomes);
* casadi.nlpsol / casadi.integrator return thin proxies through which faults can be injected (off: plain pass-through);
* asyncua.sync as seen by do_mpc is the simulated OPC UA transport (dst.opcua_sim).
Nothing in /repo is changed for this.
"""
import sys, os, types, importlib, importlib.abc, importlib.machinery, builtins, io
REPO = os.environ.get('DST_REPO', '/repo')
PKG = os.path.join(REPO, 'do_mpc')

# ------------------------------------------------------------------ solver / integrator seam
class Faults:
    """set Faults.hook to a callable(proxy, args, kwargs) -> None | ('raise', exc) | ('fail', dict)"""
    hook = None
    observer = None          # callable(proxy, kwargs, result, stats) after each real or faked call

class SolverProxy:
    def __init__(self, real, kind, name, args):
        self.__dict__.update(_real=real, _kind=kind, _pname=name, _fake=None, _calls=0, _args=args)
    def __call__(self, *a, **kw):
        import casadi
        d = self.__dict__
        d['_calls'] += 1
        d['_fake'] = None
        act = Faults.hook(self, a, kw) if Faults.hook is not None else None
        if act is not None:
            if act[0] == 'raise': raise act[1]
            if act[0] == 'fail':
                r = self._faked(kw, act[1])
                if Faults.observer: Faults.observer(self, kw, r, d['_fake'])
                return r
        r = d['_real'](*a, **kw)
        if Faults.observer: Faults.observer(self, kw, r, d['_real'].stats() if d['_kind'] == 'nlpsol' else None)
        return r
    def _faked(self, kw, opt):
        """the solver gives up: it returns its last iterate and reports failure (what IPOPT does)"""
        import casadi
        real = self.__dict__['_real']
        n = real.size1_in('x0'); m = real.size1_in('lbg')
        x0 = casadi.DM(kw.get('x0', casadi.DM.zeros(n)))
        if x0.numel() == 1: x0 = casadi.DM.ones(n) * x0
        x = casadi.DM(x0)
        if opt.get('garbage'):
            import random
            g = random.Random(opt['garbage'])
            x = x + casadi.DM([opt.get('amp', 1.0) * (2 * g.random() - 1) for _ in range(n)])
        r = {'x': x, 'f': casadi.DM(0), 'g': casadi.DM.zeros(m), 'lam_x': casadi.DM.zeros(n), 'lam_g': casadi.DM.zeros(m),
             'lam_p': casadi.DM.zeros(real.size1_in('p'))}
        st = {'success': False, 'return_status': opt.get('status', 'Maximum_Iterations_Exceeded'), 'unified_return_status': 'SOLVER_RET_LIMITED',
              'iter_count': 7, 't_wall_total': 0.001, 't_proc_total': 0.001, 'iterations': {}, 'n_call_total': 1}
        a = self.__dict__['_args']; o = a[2] if len(a) > 2 and isinstance(a[2], dict) else {}
        if not (o.get('print_time', True) or o.get('record_time', False)): del st['t_wall_total'], st['t_proc_total']
        self.__dict__['_fake'] = st
        return r
    def stats(self, *a, **k):
        f = self.__dict__['_fake']
        if f is not None: return dict(f)
        return self.__dict__['_real'].stats(*a, **k)
    def __getattr__(self, k):
        return getattr(self.__dict__['_real'], k)
    def __repr__(self): return repr(self.__dict__['_real'])

_done = {}

def _install_casadi():
    import casadi, casadi.tools
    def wrap(name):
        real = getattr(casadi, name)
        def f(nm, *a, **kw):
            # silence IPOPT output of solvers that do-mpc creates without print options
            return SolverProxy(real(nm, *a, **kw), name, nm, a)
        f.__name__ = name; f.__doc__ = real.__doc__; f._real = real
        for m in (casadi, casadi.casadi, casadi.tools):
            if getattr(m, name, None) is real: setattr(m, name, f)
        return real
    if 'casadi' not in _done:
        _done['casadi'] = (wrap('nlpsol'), wrap('integrator'))

class _Loader(importlib.machinery.SourceFileLoader):
    repl = None
    bi = None
    def exec_module(self, module):
        module.__dict__['__builtins__'] = _Loader.bi
        super().exec_module(module)
    def source_to_code(self, data, path, *, _optimize=-1):
        from . import sched
        return sched.instrument(data, path)
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)
    def set_data(self, *a, **k): pass            # never write .pyc into /repo

class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'do_mpc' and not name.startswith('do_mpc.'): return None
        parts = name.split('.')
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None

import importlib.util

def load(sim_threads=True):
    """returns the do_mpc package, loaded once per process"""
    if 'do_mpc' in _done: return _done['do_mpc']
    os.environ.setdefault('MPLBACKEND', 'Agg')
    import numpy, scipy.io, scipy.linalg, scipy.optimize, scipy.integrate, casadi, casadi.tools, pickle, logging, warnings
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)
    try: import matplotlib.pyplot
    except Exception: pass
    try: import onnx
    except Exception: pass
    try: import asyncua.sync
    except Exception: pass
    _install_casadi()
    from . import sched, opcua_sim, proc_sim
    repl = dict(sched.sim_modules())
    repl.pop('_queue', None)
    repl['asyncua.sync'] = opcua_sim.module()
    asy = types.ModuleType('asyncua'); asy.sync = repl['asyncua.sync']
    import asyncua
    asy.ua = asyncua.ua
    repl['asyncua'] = asy
    repl['asyncua.ua'] = asyncua.ua
    repl['subprocess'] = proc_sim.module()
    b = sched.builtins_with(repl)
    inner = b['__import__']
    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name == 'asyncua.sync' and not fromlist:
            return asy
        return inner(name, globals, locals, fromlist, level)
    b['__import__'] = imp
    # `import asyncua.sync as opcua` compiles to IMPORT_NAME + IMPORT_FROM on the top package
    b['open'] = lambda *a, **k: builtins.open(*a, **k)      # so that FS patches made later are seen
    _Loader.bi = b
    assert not any(m == 'do_mpc' or m.startswith('do_mpc.') for m in sys.modules), 'do_mpc already imported'
    sys.meta_path.insert(0, _Finder())
    old = sys.dont_write_bytecode; sys.dont_write_bytecode = True
    out, sys.stdout = sys.stdout, io.StringIO()
    try:
        import do_mpc
        importlib.import_module('do_mpc.sampling'); importlib.import_module('do_mpc.opcua')
    finally:
        sys.stdout = out; sys.dont_write_bytecode = old
    _done['do_mpc'] = do_mpc
    return do_mpc

def warm():
    """load the solver plug-ins once, before processes are forked (nothing of do-mpc runs)"""
    import casadi
    out = os.dup(1); null = os.open(os.devnull, os.O_WRONLY); sys.stdout.flush(); os.dup2(null, 1)
    try:
        x = casadi.SX.sym('x', 2)
        s = _done['casadi'][0]('w', 'ipopt', {'x': x, 'f': casadi.sumsqr(x - 1), 'g': x[0] * x[1]}, {'ipopt.print_level': 0, 'print_time': 0, 'ipopt.sb': 'yes'})
        s(x0=[0.3, 0.2], lbg=0, ubg=0.5)
        z = casadi.SX.sym('z')
        for n, d in (('cvodes', {'x': x, 'ode': -x}), ('idas', {'x': x, 'z': z, 'ode': -x, 'alg': z - x[0]})): _done['casadi'][1]('w', n, d, 0.0, [0.1])(x0=[1.0, 0.5])
    finally: os.dup2(out, 1); os.close(out); os.close(null)
