"""File layer seam: everything the code under test does to files below one scratch directory passes through here, where the scheduler may
switch threads, the fault source may inject errors / torn writes / process kills, and a killed process can no longer change anything.

The files themselves are real files of the scratch directory; crash model: the process dies (the operating system survives), so what reached
a write() call is durable and what did not is lost.  Calls outside the scratch directory go straight to the operating system.
"""
import os, io, builtins, errno, _io
from . import sched

_real = {}
FS_ = None

def _r(name): return _real[name]

class FS:
    def __init__(self, sim, root, faults):
        self.sim = sim; self.root = os.path.abspath(root); self.faults = faults; self.fds = {}
        self.ops = 0; self.on_change = None; self.names = {}
    # ---- helpers
    def inside(self, p):
        if isinstance(p, int): return p in self.fds
        try: p = os.fspath(p)
        except TypeError: return False
        if isinstance(p, bytes): p = p.decode('utf8', 'surrogateescape')
        if not p.startswith('/'): p = _r('getcwd')() + '/' + p
        return p.startswith(self.root)
    def active(self): 
        t = sched.cur_thread()
        return t is not None and sched.CURRENT is self.sim
    def short(self, p):
        if isinstance(p, int): p = self.fds.get(p, p)
        if not isinstance(p, int) and os.fspath(p).rstrip('/') == self.root: return 'root'
        p = os.path.basename(os.fspath(p)) if not isinstance(p, int) else str(p)
        if isinstance(p, bytes): p = p.decode('utf8', 'replace')
        # unique temporary names are random: log them by order of appearance
        if len(p) > 36 or p.endswith('.tmp') or p.startswith('tmp'): return 'temp%d' % self.names.setdefault(p, len(self.names))
        return p
    def enter(self, op, path, allow=True):
        """schedule point, fencing and fault decision before an operation; returns a partial-write directive or None"""
        sim = self.sim; t = sched.cur_thread()
        sim.point()
        sim._check(t)
        self.ops += 1
        f = self.faults.decide(op, self.short(path)) if allow and self.faults is not None and not sim.nopreempt else None
        if f is None: sim.ev('fs', op, self.short(path)); return None
        kind, arg = f
        sim.ev('fs-fault', op, kind, self.short(path))
        if kind in ('torn-kill', 'torn-enospc', 'torn-eio', 'torn-intr', 'short'): return f
        self.fail(kind)
    def fail(self, kind):
        sim = self.sim; t = sched.cur_thread()
        if kind == 'kill':
            if t.proc is None: return
            sim.kill_proc(t.proc); raise sched.SimKill()
        if kind == 'enospc': raise OSError(errno.ENOSPC, 'No space left on device (injected)')
        if kind == 'eio': raise OSError(errno.EIO, 'Input/output error (injected)')
        if kind == 'eacces': raise PermissionError(errno.EACCES, 'Permission denied (injected)')
        if kind == 'emfile': raise OSError(errno.EMFILE, 'Too many open files (injected)')
        if kind == 'intr': raise KeyboardInterrupt('injected')
        raise AssertionError(kind)
    def changed(self, op, path):
        self.sim.point()

class SimRaw(io.RawIOBase):
    def __init__(self, fs, real, path, mode):
        self._fs = fs; self._real = real; self._path = path; self.name = path; self.mode = mode
    def readable(self): return self._real.readable()
    def writable(self): return self._real.writable()
    def seekable(self): return self._real.seekable()
    def fileno(self): return self._real.fileno()
    def isatty(self): return False
    def seek(self, *a): return self._real.seek(*a)
    def tell(self): return self._real.tell()
    def truncate(self, *a):
        if self._fs.active(): self._fs.enter('write', self._path)
        return self._real.truncate(*a)
    def readinto(self, b):
        if self._fs.active(): self._fs.enter('read', self._path)
        return self._real.readinto(b)
    def write(self, b):
        fs = self._fs
        if not fs.active(): return len(b)                 # finalizers of dead simulated threads have no effect
        f = fs.enter('write', self._path)
        mv = memoryview(b).cast('B')
        if f is None:
            n = self._real.write(mv); fs.changed('write', self._path); return n
        kind, frac = f
        n = int(len(mv) * (frac or 0.0)); n = max(0, min(n, len(mv) - 1)) if len(mv) else 0
        if kind == 'short':
            n = max(1, n); n = self._real.write(mv[:n]) if len(mv) else 0
            fs.changed('write', self._path); return n
        if n: self._real.write(mv[:n])
        fs.changed('write', self._path)
        fs.fail(kind.split('-')[1])
        return self._real.write(mv[n:]) + n               # (a kill outside any process)
    def close(self):
        if self.closed: return
        try:
            super().close()
        finally:
            self._real.close()

def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = FS_
    if fs is None or not fs.active() or not fs.inside(file):
        return _r('open')(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = any(c in mode for c in 'wax+')
    path = fs.fds.pop(file, file) if isinstance(file, int) else file
    if not isinstance(file, int): fs.enter('open-w' if w else 'open-r', path)
    raw = _io.FileIO(file, mode.replace('t', '').replace('b', '').replace('U', ''), closefd, opener)
    sr = SimRaw(fs, raw, path, mode)
    if w: fs.changed('open', path)
    if buffering == 0: return sr
    bs = buffering if buffering > 1 else 8192
    if '+' in mode: buf = io.BufferedRandom(sr, bs)
    elif w: buf = SimBufferedWriter(sr, bs)
    else: buf = io.BufferedReader(sr, bs)
    if 'b' in mode: return buf
    return io.TextIOWrapper(buf, encoding, errors, newline)

class SimBufferedWriter(io.BufferedWriter):
    pass

def _wrap1(name, op, w=True):
    real = _real[name]
    def f(path, *a, **k):
        fs = FS_
        if fs is None or not fs.active() or not fs.inside(path): return real(path, *a, **k)
        fs.enter(op, path)
        r = real(path, *a, **k)
        if w: fs.changed(op, path)
        return r
    f.__name__ = name
    return f

def _wrap2(name, op):
    real = _real[name]
    def f(src, dst, *a, **k):
        fs = FS_
        if fs is None or not fs.active() or not (fs.inside(src) or fs.inside(dst)): return real(src, dst, *a, **k)
        fs.enter(op, dst)
        r = real(src, dst, *a, **k)
        fs.changed(op, dst)
        return r
    f.__name__ = name
    return f

def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = FS_
    if fs is None or not fs.active() or not fs.inside(path): return _r('os.open')(path, flags, mode, dir_fd=dir_fd)
    w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT)
    fs.enter('open-w' if w else 'open-r', path)
    fd = _r('os.open')(path, flags, mode, dir_fd=dir_fd)
    fs.fds[fd] = path
    if w: fs.changed('open', path)
    return fd
def _os_write(fd, data):
    fs = FS_
    if fs is None or fd not in fs.fds: return _r('write')(fd, data)
    if not fs.active(): return len(data)
    f = fs.enter('write', fd)
    if f is None: return _r('write')(fd, data)
    n = int(len(data) * (f[1] or 0.0))
    if f[0] == 'short': return _r('write')(fd, bytes(data)[:max(1, n)])
    if n: _r('write')(fd, bytes(data)[:n])
    fs.fail(f[0].split('-')[1])
    return n
def _os_close(fd):
    fs = FS_
    if fs is not None: fs.fds.pop(fd, None)
    return _r('close')(fd)
def _os_fsync(fd):
    fs = FS_
    if fs is not None and fs.active(): fs.enter('fsync', fs.fds.get(fd, 'fd'))
    # durability against power loss is outside the crash model
    return None if fs is not None else _r('fsync')(fd)

def install():
    if _real: return
    _real.update({'open': builtins.open, 'getcwd': os.getcwd, 'os.open': os.open, 'write': os.write, 'close': os.close, 'fsync': os.fsync})
    for n in ('replace', 'rename', 'link', 'symlink', 'unlink', 'remove', 'mkdir', 'rmdir', 'stat', 'truncate', 'listdir', 'access', 'lstat', 'chmod', 'utime'):
        _real[n] = getattr(os, n)
    builtins.open = sim_open; io.open = sim_open; _io.open = sim_open
    os.open = _os_open; os.write = _os_write; os.close = _os_close; os.fsync = _os_fsync
    os.replace = _wrap2('replace', 'rename'); os.rename = _wrap2('rename', 'rename'); os.link = _wrap2('link', 'link'); os.symlink = _wrap2('symlink', 'link')
    os.unlink = _wrap1('unlink', 'unlink'); os.remove = _wrap1('remove', 'unlink'); os.mkdir = _wrap1('mkdir', 'mkdir'); os.rmdir = _wrap1('rmdir', 'unlink')
    os.truncate = _wrap1('truncate', 'write')
    os.stat = _wrap1('stat', 'stat', False); os.lstat = _wrap1('lstat', 'stat', False); os.listdir = _wrap1('listdir', 'stat', False)
    os.access = _wrap1('access', 'stat', False)
    _real['exists'] = os.path.exists; _real['isfile'] = os.path.isfile
    import genericpath

def raw_read(path):
    with _io.FileIO(path, 'r') as f: return f.readall()

def snapshot(root):
    """{relative name: bytes} of all files below root, read behind the simulator's back"""
    res = {}
    def walk(d, pre):
        with os.scandir(d) as it: ents = sorted(it, key=lambda e: e.name)
        for e in ents:
            if e.is_dir(follow_symlinks=False): walk(e.path, pre + e.name + '/')
            else: res[pre + e.name] = raw_read(e.path)
    walk(root, '')
    return res

FAULTS_W = lambda kills=True: {
    'open-w': [('enospc', 1), ('eacces', 1), ('emfile', .5), ('intr', .5)] + ([('kill', 3)] if kills else []),
    'write': [('enospc', 1), ('eio', 1), ('intr', .5), ('torn-enospc', 2, lambda r: r.fl(0, 1, 3)), ('torn-eio', 1, lambda r: r.fl(0, 1, 3)),
              ('torn-intr', 1, lambda r: r.fl(0, 1, 3)), ('short', 2, lambda r: r.fl(0, 1, 3))]
             + ([('kill', 3), ('torn-kill', 3, lambda r: r.fl(0, 1, 3))] if kills else []),
    'rename': [('eio', 1), ('eacces', 1), ('intr', .5)] + ([('kill', 3)] if kills else []),
    'link': [('eio', 1), ('intr', .5)] + ([('kill', 3)] if kills else []),
    'unlink': [('eacces', .5)] + ([('kill', 3)] if kills else []),
    'mkdir': [('enospc', 1)] + ([('kill', 2)] if kills else []),
    'stat': ([('kill', 1)] if kills else []),
    'read': [('eio', 2), ('intr', .3)] + ([('kill', .5)] if kills else []),
    'open-r': [('eio', 1), ('emfile', 1)] + ([('kill', .5)] if kills else []),
    'fsync': [('eio', 1)],
}
