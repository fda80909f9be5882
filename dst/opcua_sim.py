"""Simulated OPC UA transport with the interface of asyncua.sync that do_mpc uses (behaviour calibrated against asyncua 2.1
over loopback: see tools/opcua_fidelity.py).  Latency, refusals, drops, time-outs and server loss are decided by Net.fault()."""
import types
from . import sched

NET = None       # the active network (one per run)

class ThreadLoopNotRunning(Exception): pass

def _ua():
    import asyncua
    return asyncua.ua

class Net:
    def __init__(self, sim, faults=None):
        self.sim = sim
        self.faults = faults               # FaultSource or None
        self.server = {}                   # port -> SimServer that is running
        self.hist = []                     # (seq, thread id, what, client name, node, value)
        self.seq = 0
        self.latency = 0.0
        self.counts = {}
        self.on_event = None
    def rec(self, what, client, node, value):
        self.seq += 1
        t = sched.cur_thread()
        e = (self.seq, t.id if t else 0, what, client, node, value)
        self.hist.append(e)
        self.sim.ev('net', what, client, node, None if value is None else repr(value))
        if self.on_event: self.on_event(e)
        return e

class _Val:
    __slots__ = ('value', 'writable')
    def __init__(self, v): self.value = list(v) if isinstance(v, (list, tuple)) else v; self.writable = False

def _norm(nodeid):
    ua = _ua()
    if isinstance(nodeid, str):
        n = ua.NodeId.from_string(nodeid)
    else:
        n = nodeid
    return (n.NamespaceIndex, n.Identifier)

def _check_type(old, new):
    ua = _ua()
    def kind(v):
        if isinstance(v, (list, tuple)): return ('list',) + tuple(sorted({kind(x) for x in v}, key=str))
        if isinstance(v, bool): return 'bool'
        if isinstance(v, float): return 'float'
        if isinstance(v, int): return 'int'
        return type(v).__name__
    if kind(old) != kind(new):
        raise ua.uaerrors.BadTypeMismatch() if hasattr(ua, 'uaerrors') else RuntimeError('BadTypeMismatch')

def _uaerr(name):
    from asyncua.ua import uaerrors
    return getattr(uaerrors, name)()

class SrvNode:
    def __init__(self, server, nodeid): self.server = server; self.nodeid = nodeid
    def add_object(self, idx, name, *a):
        ua = _ua()
        self.server._auto += 1
        nid = ua.NodeId(self.server._auto, idx) if not isinstance(idx, ua.NodeId) else idx
        return SrvNode(self.server, nid)
    def add_variable(self, nodeid, name, val, *a, **k):
        ua = _ua()
        if isinstance(nodeid, int):
            self.server._auto += 1
            nodeid = ua.NodeId(self.server._auto, nodeid)
        elif isinstance(nodeid, str):
            nodeid = ua.NodeId.from_string(nodeid)
        k2 = _norm(nodeid)
        if k2 in self.server.vars: raise _uaerr('BadNodeIdExists')
        self.server.vars[k2] = _Val(val)
        return SrvNode(self.server, nodeid)
    def set_writable(self, writable=True): self.server.vars[_norm(self.nodeid)].writable = writable
    def get_value(self): return list(self.server.vars[_norm(self.nodeid)].value)
    read_value = get_value
    def set_value(self, v, *a): self.server.vars[_norm(self.nodeid)].value = list(v)
    write_value = set_value

class Server:
    def __init__(self, *a, **k):
        self.vars = {}; self.ns = ['http://opcfoundation.org/UA/', 'urn:freeopcua:python:server']
        self._auto = 0; self.port = 4840; self.running = False; self.dead = False; self.epoch = 0
        self.nodes = types.SimpleNamespace(objects=SrvNode(self, None))
        self.name = None
    def set_endpoint(self, url): self.port = _port(url)
    def set_server_name(self, n): self.name = n
    def init(self, *a): pass
    def register_namespace(self, name):
        if self.dead: raise ThreadLoopNotRunning()
        if name in self.ns: return self.ns.index(name)
        self.ns.append(name); return len(self.ns) - 1
    def get_namespace_array(self): return list(self.ns)
    def get_namespace_index(self, n): return self.ns.index(n)
    def get_objects_node(self): return self.nodes.objects
    def get_node(self, nodeid): return SrvNode(self, nodeid)
    def start(self):
        if self.dead: raise ThreadLoopNotRunning()
        if self.port in NET.server: raise OSError(98, 'address already in use')
        self.running = True; NET.server[self.port] = self
        NET.rec('server-start', None, None, None)
    def stop(self):
        if self.running:
            self.running = False; NET.server.pop(self.port, None); self.epoch += 1
        self.dead = True
        NET.rec('server-stop', None, None, None)
    def crash(self):
        """the server process disappears; established connections are lost"""
        if self.running:
            self.running = False; NET.server.pop(self.port, None); self.epoch += 1
        NET.rec('server-crash', None, None, None)
    def __enter__(self): self.start(); return self
    def __exit__(self, *a): self.stop()

def _port(url):
    try: return int(url.split('://', 1)[-1].split('/', 1)[0].rsplit(':', 1)[1])
    except Exception: return 4840

class CliNode:
    def __init__(self, client, nodeid):
        self.client = client; self.key = _norm(nodeid); self.nodeid = nodeid
    def _op(self, what, value=None):
        net, c = NET, self.client
        nid = 'ns=%s;s=%s' % self.key
        if c.closed: raise ThreadLoopNotRunning('could not post: asyncio loop in thread is not running')
        sim = net.sim
        net.rec('req', c.label, nid, None)
        if net.latency: sim.sleep(net.latency)
        else: sim.point()
        f = net.faults.decide(what, nid) if net.faults else None
        if f:
            kind, arg = f
            net.rec(what + '-fault:' + kind, c.label, nid, None)
            if kind == 'drop': c.conn = None; raise ConnectionError('client is disconnected')
            if kind == 'refused': raise ConnectionRefusedError(111, 'Connect call failed')
            if kind == 'timeout': sim.sleep(4.0); raise TimeoutError()
            if kind == 'ua': raise _uaerr('BadInternalError')
            if kind == 'lost-reply':
                # the request took effect, its acknowledgement is lost
                self._apply(what, value, nid, c); c.conn = None; raise ConnectionError('client is disconnected')
            if kind == 'slow': sim.sleep(arg)
        return self._apply(what, value, nid, c)
    def _apply(self, what, value, nid, c):
        net = NET
        if c.conn is None:
            net.rec(what + '-lost', c.label, nid, None); raise ConnectionError('Connection is not open')
        srv, epoch = c.conn
        if not srv.running or srv.epoch != epoch:
            c.conn = None; net.rec(what + '-lost', c.label, nid, None)
            raise ConnectionError('client is disconnected')
        v = srv.vars.get(self.key)
        if v is None:
            net.rec(what + '-unknown', c.label, nid, None); raise _uaerr('BadNodeIdUnknown')
        if what == 'read':
            net.rec('read', c.label, nid, list(v.value)); return list(v.value)
        if not v.writable: raise _uaerr('BadUserAccessDenied')
        import numpy as np
        val = list(value) if isinstance(value, (list, tuple)) else value
        def bad(a, b): return type(a) is not type(b) and not (isinstance(a, float) and isinstance(b, float))
        if isinstance(val, list) != isinstance(v.value, list) or (val and bad(v.value[0] if v.value else 0.0, val[0])):
            net.rec('write-type', c.label, nid, None); raise _uaerr('BadTypeMismatch')
        val = [float(x) for x in val] if isinstance(val, list) else val
        v.value = val
        net.rec('write', c.label, nid, list(val))
    def get_value(self): return self._op('read')
    read_value = get_value
    def set_value(self, v, *a): return self._op('write', v)
    write_value = set_value

class Client:
    count = 0
    def __init__(self, url, timeout=4, *a, **k):
        self.url = url; self.conn = None; self.closed = False
        Client.count += 1
        self.label = 'c%d' % Client.count
    def connect(self):
        if self.closed: raise ThreadLoopNotRunning('could not post: asyncio loop in thread is not running')
        NET.sim.point()
        f = NET.faults.decide('connect', self.label) if NET.faults else None
        srv = NET.server.get(_port(self.url))
        if srv is None or f:
            NET.rec('connect-refused', self.label, None, None)
            raise ConnectionRefusedError(111, 'Connect call failed')
        self.conn = (srv, srv.epoch)
        NET.rec('connect', self.label, None, None)
    def disconnect(self):
        if self.closed: raise RuntimeError('Event loop is closed')
        self.conn = None; self.closed = True
        NET.rec('disconnect', self.label, None, None)
    def get_node(self, nodeid): return CliNode(self, nodeid)
    def get_namespace_array(self): return self.conn[0].get_namespace_array()
    def get_namespace_index(self, n): return self.conn[0].get_namespace_index(n)
    def read_values(self, nodes): return [n.get_value() for n in nodes]
    def get_values(self, nodes): return [n.get_value() for n in nodes]
    def write_values(self, nodes, values): 
        for n, v in zip(nodes, values): n.set_value(v)
    set_values = write_values
    def __enter__(self): self.connect(); return self
    def __exit__(self, *a): self.disconnect()

_M = None
def module():
    global _M
    if _M is None:
        m = types.ModuleType('asyncua.sync')
        m.Client = Client; m.Server = Server; m.ThreadLoopNotRunning = ThreadLoopNotRunning
        m.Node = CliNode
        m.__getattr__ = lambda name: (_ua() if name == 'ua' else (_ for _ in ()).throw(AttributeError(name)))
        import asyncua
        m.ua = asyncua.ua
        _M = m
    return _M
