"""subprocess / os.system as seen by do_mpc: outcomes of the compiler are decided by the simulator."""
import types, subprocess as _sp
hook = None       # callable(command) -> (returncode) ; None: run for real
class _P:
    def __init__(self, rc): self.returncode = rc; self.stdout = self.stderr = None; self.pid = 4242
    def wait(self, timeout=None): return self.returncode
    def poll(self): return self.returncode
    def communicate(self, input=None, timeout=None): return (b'', b'')
    def kill(self): pass
    terminate = kill
    def __enter__(self): return self
    def __exit__(self, *a): pass
def module():
    m = types.ModuleType('subprocess')
    for k in dir(_sp):
        if not k.startswith('__'): setattr(m, k, getattr(_sp, k))
    def Popen(cmd, *a, **k):
        if hook is None: return _sp.Popen(cmd, *a, **k)
        return _P(hook(cmd))
    def run(cmd, *a, check=False, **k):
        if hook is None: return _sp.run(cmd, *a, check=check, **k)
        rc = hook(cmd)
        if check and rc: raise _sp.CalledProcessError(rc, cmd)
        return _sp.CompletedProcess(cmd, rc, b'', b'')
    def call(cmd, *a, **k):
        return _sp.call(cmd, *a, **k) if hook is None else hook(cmd)
    def check_call(cmd, *a, **k):
        if hook is None: return _sp.check_call(cmd, *a, **k)
        rc = hook(cmd)
        if rc: raise _sp.CalledProcessError(rc, cmd)
        return 0
    def check_output(cmd, *a, **k):
        check_call(cmd); return b''
    m.Popen = Popen; m.run = run; m.call = call; m.check_call = check_call; m.check_output = check_output
    return m
