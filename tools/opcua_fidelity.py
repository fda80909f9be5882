"""Calibration of dst/opcua_sim.py: what asyncua 2.1 does over loopback (run by hand; no check uses it)."""
import asyncua.sync as opcua, time, logging
logging.disable(50)
s=opcua.Server()
i=s.register_namespace('a'); print(i, s.register_namespace('b'), s.register_namespace('a'), s.get_namespace_array())
o=s.nodes.objects.add_object(i,'x'); 
v=o.add_variable(opcua.ua.NodeId('x[a,0]',i),'x[a,0]',[0.0]); v.set_writable()
try:
    o2=s.nodes.objects.add_object(i,'x'); print('dup obj ok',o2, o)
    v=o2.add_variable(opcua.ua.NodeId('x[a,0]',i),'x[a,0]',[0.0]); print('dup var ok')
except Exception as e: print(type(e).__mro__, e)
try: o.add_variable(opcua.ua.NodeId('ro',i),'ro',[0.0])
except Exception as e: print(e)
c=opcua.Client('opc.tcp://localhost:4840/freeopcua/server/', timeout=2)
try: c.connect()
except BaseException as e: print('connect refused:',type(e).__mro__, e)
s.start()
c.connect()
n=c.get_node('ns=%d;s=x[a,0]'%i)
print(n.get_value()); n.set_value([1.5]); print(n.get_value(), v.get_value())
import numpy as np
n.set_value([np.float64(3)]); print(n.get_value())
def t(f,l):
    try: print(l,'->',f())
    except BaseException as e: print(l,type(e).__mro__, e)
t(lambda: c.get_node('ns=2;s=nope').get_value(),'unknown node')
t(lambda: c.get_node('ns=2;s=ro').set_value([1.]),'readonly')
t(lambda: c.get_node('bad').get_value(),'badid')
t(lambda: n.set_value([float('nan')]),'nan')
t(lambda: n.set_value(['s']),'type')
c2=opcua.Client('opc.tcp://localhost:4840/x', timeout=2)
t(lambda: c2.get_node('ns=2;s=x[a,0]').get_value(),'never connected')
t(lambda: c2.connect(),'conn2')
t(lambda: c2.connect(),'conn2 twice')
c2.disconnect()
t(lambda: c2.get_node('ns=2;s=x[a,0]').get_value(),'after disconnect')
t(lambda: c2.disconnect(),'disconnect twice')
t(lambda: c2.connect(),'reconnect')
t(lambda: c2.get_node('ns=2;s=x[a,0]').get_value(),'after reconnect')
s.stop()
t(lambda: n.get_value(),'after server stop')
t(lambda: n.set_value([1.]),'after server stop w')
t(lambda: c.connect(),'connect after stop')
t(lambda: c.disconnect(),'disc after stop')
t(lambda: s.start(),'start again')
t(lambda: c.connect(),'connect again')
t(lambda: n.get_value(),'value after restart')
t(lambda: s.start(),'start twice')
import os; os._exit(0)

import asyncua.sync as opcua, time, logging, os
logging.disable(50)
def mk():
    s=opcua.Server(); i=s.register_namespace('a'); o=s.nodes.objects.add_object(i,'x')
    v=o.add_variable(opcua.ua.NodeId('x0',i),'x0',[0.0]); v.set_writable(); s.start(); return s
s=mk(); c=opcua.Client('opc.tcp://localhost:4840/freeopcua/server/', timeout=2); c.connect(); n=c.get_node('ns=2;s=x0'); n.set_value([4.0]); print(n.get_value())
s.stop()
def t(f,l):
    try: print(l,'->',f())
    except BaseException as e: print(l,type(e), e)
t(n.get_value,'down')
s=mk(); t(n.get_value,'up, not reconnected')
t(c.connect,'connect'); t(n.get_value,'reconnected'); t(lambda:c.get_node('ns=2;s=x0').get_value(),'fresh node')
t(c.connect,'connect while connected'); t(n.get_value,'read')
os._exit(0)
