From 7d5a3de89e5402d709e0b85645d1614aba7a3862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 01/27] fix: RTBase: overlapping cycles, cycles after a stop,
 multiple timer chains

make_step of the wrapped object could run in several threads at once (slow
cycle, restart, direct call), a timer firing during async_step_stop re-armed
itself, concurrent starts created several timer chains, and the timer duration
was computed from two readings of the adjustable system clock.
---
 do_mpc/opcua/_base.py | 60 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 9 deletions(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index 1d8df0c..6dca1f8 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -23,7 +23,8 @@
 import time
 import numpy as np
 from typing import List
-from threading import Timer, Thread
+from functools import wraps
+from threading import Timer, Thread, RLock
 from enum import Enum, auto
 from casadi import *
 from ._client import RTClient
@@ -32,6 +33,17 @@ import casadi.tools as ctools
 from ..model import Model
 
    
+def _synchronized(lock_name):
+    # Run the decorated method while holding the lock with the given attribute name.
+    def decorate(method):
+        @wraps(method)
+        def wrapper(self, *args, **kwargs):
+            with getattr(self, lock_name):
+                return method(self, *args, **kwargs)
+        return wrapper
+    return decorate
+
+
 class RTBase:
     ''' Real Time Base.
     The RTBase class extends do-mpc with an OPC UA interface.
@@ -87,6 +99,13 @@ class RTBase:
         self.is_running = False
         self.new_init = True
         self.async_fag = False
+        self.thread = None
+
+        # The do-mpc object is not thread-safe: only one cycle may be in progress.
+        self._step_lock = RLock()
+        # Protects starting and stopping. Timers and cycles of an earlier start carry an outdated run id.
+        self._state_lock = RLock()
+        self._run_id = 0
 
 
     def namespace_from_model(self, model:Model, model_name:str)->Namespace:
@@ -172,6 +191,7 @@ class RTBase:
         self.tagin = tagin
 
 
+    @_synchronized('_step_lock')
     def make_step(self)->None:
         '''
         Calls the do-mpc make_step method e.g.. :py:meth:`do_mpc.controller.MPC.make_step`.
@@ -218,27 +238,46 @@ class RTBase:
         return np.array([self.client.readData(i) for i in self.tagin]).reshape(-1,1)
 
 
-    def async_run(self)->None:
+    def async_run(self, run_id:int)->None:
         '''
         This method is called inside of :py:meth:`async_step_start`. It calls :py:meth:`make_step` and :py:meth:`async_step_start`.
+        The call of :py:meth:`make_step` is skipped if the previous one is still in progress.
+
+        Args:
+            run_id : Identifies the start this cycle belongs to.
         '''
-        self.is_running = False    
-        self.async_step_start()
-        self.make_step()
+        with self._state_lock:
+            if run_id != self._run_id:
+                return
+            self.is_running = False
+            self.async_step_start()
+        self._run_cycle(run_id, False)
+
+
+    def _run_cycle(self, run_id:int, wait:bool)->None:
+        if not self._step_lock.acquire(blocking=wait):
+            return
+        try:
+            # The operation might have been stopped in the meantime.
+            if run_id == self._run_id:
+                self.make_step()
+        finally:
+            self._step_lock.release()
 
 
+    @_synchronized('_state_lock')
     def async_step_start(self)->None:
         '''
         This method calls the :py:meth:`async_run` method in a frequency given by the do-mpc classes t_step value.
         '''
         if self.new_init == True:
-            self.new_thread = Thread(target=self.make_step)
+            self._run_id += 1
+            self.new_thread = Thread(target=self._run_cycle, args=(self._run_id, True))
             self.new_thread.start()
             self.new_init = False
 
         if not self.is_running:
-            self.cycle = time.time() + self.cycle_time 
-            self.thread = Timer(self.cycle - time.time(), self.async_run)
+            self.thread = Timer(self.cycle_time, self.async_run, (self._run_id,))
             self.thread.start()
             self.is_running = True
 
@@ -247,11 +286,14 @@ class RTBase:
             return print('Async operation was interrupted by the user')
 
 
+    @_synchronized('_state_lock')
     def async_step_stop(self)->None:
         '''
         Stops :py:meth:`async_step_start` from running.
         '''
-        self.thread.cancel()
+        if self.thread is not None:
+            self.thread.cancel()
+        self._run_id += 1
         self.is_running = False
         self.new_init = True
         self.async_fag = True
-- 
2.43.0


From 2a647e3f4f2504dba4587e25e665cb7f4df498d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 02/27] fix: RTClient: refused reads and writes raised
 AttributeError (self.type)

---
 do_mpc/opcua/_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/opcua/_client.py b/do_mpc/opcua/_client.py
index 95a9da1..5402599 100644
--- a/do_mpc/opcua/_client.py
+++ b/do_mpc/opcua/_client.py
@@ -122,7 +122,7 @@ class RTClient:
         try:
             self.opcua_client.get_node(tag).set_value(dataVal)
         except ConnectionRefusedError:
-            print("Write operation by:", self.type, " failed @ time:", time.strftime('%Y-%m-%d %H:%M %Z', time.localtime()))
+            print("Write operation by:", self.name, " failed @ time:", time.strftime('%Y-%m-%d %H:%M %Z', time.localtime()))
             return False
         
 
@@ -140,5 +140,6 @@ class RTClient:
         try: 
             dataVal = self.opcua_client.get_node(tag).get_value()
         except ConnectionRefusedError:
-            print("A read operation by:", self.type, "failed @ time: ", time.strftime('%Y-%m-%d %H:%M %Z', time.localtime()))
+            print("A read operation by:", self.name, "failed @ time: ", time.strftime('%Y-%m-%d %H:%M %Z', time.localtime()))
+            raise
         return dataVal
\ No newline at end of file
-- 
2.43.0


From fa2731572da0d6ad00d79246c387e38978a4f7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 03/27] fix: opcua namespace: registering a client again
 changed its node ids; 'default' in a name

---
 do_mpc/opcua/_base.py   | 2 +-
 do_mpc/opcua/_helper.py | 3 ++-
 do_mpc/opcua/_server.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index 6dca1f8..12c3fb2 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -129,7 +129,7 @@ class RTBase:
         for var in variable_list:
             
             for key in model[var].labels():
-                if 'default' in key:
+                if key.startswith('[default,'):
                     continue
                 
                 node_list.append(NamespaceEntry(var, key))
diff --git a/do_mpc/opcua/_helper.py b/do_mpc/opcua/_helper.py
index 68550d9..617f3a0 100644
--- a/do_mpc/opcua/_helper.py
+++ b/do_mpc/opcua/_helper.py
@@ -35,6 +35,7 @@ class NamespaceEntry:
     '''
     objectnode: str
     variable: str
+    _node_name: str = None      # name of the variable on the server, if it was registered
 
 
     def get_node_id(self, namespace_index:int)->str:
@@ -51,7 +52,7 @@ class NamespaceEntry:
 
         if namespace_index == None:
             raise Exception('Namespace_index not defined')
-        return f'ns={namespace_index};s={self.variable}'
+        return f'ns={namespace_index};s={self._node_name or self.variable}'
     
 
 
diff --git a/do_mpc/opcua/_server.py b/do_mpc/opcua/_server.py
index 35abaea..10775fd 100644
--- a/do_mpc/opcua/_server.py
+++ b/do_mpc/opcua/_server.py
@@ -126,7 +126,7 @@ class RTServer:
             )
         
         datavector.set_writable()
-        namespace_entry.variable = variable_name
+        namespace_entry._node_name = variable_name
 
 
     # Start server
-- 
2.43.0


From 175b0d26e2618cd9169707c307f379ffd45e776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 04/27] fix: saving samples, sampling plans and results is
 atomic and never replaces a file written meanwhile

A crash or write error left a torn file that counted as finished sample; two
processes exporting or saving at once overwrote each other; save_pickle removed
'.pkl' anywhere in the path.
---
 do_mpc/data.py                      | 24 +++++++++------
 do_mpc/sampling/_sampler.py         |  5 ++--
 do_mpc/sampling/_samplingplanner.py | 19 +++++++-----
 do_mpc/tools/__init__.py            | 46 +++++++++++++++++++++++++++--
 4 files changed, 72 insertions(+), 22 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index dc49ea5..4cb59df 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -408,7 +408,7 @@ def save_results(save_list:list,
     assert isinstance(overwrite, bool), 'overwrite must be boolean.'
 
     if not os.path.exists(result_path):
-        os.makedirs(result_path)
+        os.makedirs(result_path, exist_ok=True)
 
     results = {}
 
@@ -423,16 +423,22 @@ def save_results(save_list:list,
             raise Exception('save_list contains object which is neither do_mpc simulator, optimizizer nor estimator.')
 
     # Dynamically generate new result name if name is already taken in result_path.
-    if overwrite==False:
-        ind = 1
-        ext_result_name = result_name
-        while os.path.isfile(result_path+ext_result_name+'.pkl'):
+    ext_result_name = result_name
+    ind = 1
+    while True:
+        if overwrite==False:
+            while os.path.isfile(result_path+ext_result_name+'.pkl'):
+                ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)
+                ind += 1
+
+        try:
+            with do_mpc.tools.atomic_write(result_path+ext_result_name+'.pkl', overwrite=overwrite) as f:
+                pickle.dump(results, f)
+            break
+        except FileExistsError:
+            # The name was taken by another process in the meantime.
             ext_result_name = '{ind:03d}_{name}'.format(ind=ind, name=result_name)
             ind += 1
-        result_name = ext_result_name
-
-    with open(result_path+result_name+'.pkl', 'wb') as f:
-        pickle.dump(results, f)
 
 def load_results(file_name:str)->Dict:
     """ Simple wrapper to open and unpickle a file.
diff --git a/do_mpc/sampling/_sampler.py b/do_mpc/sampling/_sampler.py
index 6f06afb..5c385b7 100644
--- a/do_mpc/sampling/_sampler.py
+++ b/do_mpc/sampling/_sampler.py
@@ -7,7 +7,7 @@ import pathlib
 import pdb
 import scipy.io as sio
 import copy
-from do_mpc.tools import load_pickle, save_pickle, printProgressBar
+from do_mpc.tools import load_pickle, save_pickle, atomic_write, printProgressBar
 from typing import Union,Callable
 
 class Sampler:
@@ -192,7 +192,8 @@ class Sampler:
             if self.save_format == 'pickle':
                 save_pickle(self.data_dir + save_name, result)
             elif self.save_format == 'mat':
-                sio.savemat(self.data_dir + save_name, {'res': result})
+                with atomic_write(self.data_dir + save_name) as f:
+                    sio.savemat(f, {'res': result})
 
 
     def sample_idx(self, idx:int)->None:
diff --git a/do_mpc/sampling/_samplingplanner.py b/do_mpc/sampling/_samplingplanner.py
index 0369759..083f278 100644
--- a/do_mpc/sampling/_samplingplanner.py
+++ b/do_mpc/sampling/_samplingplanner.py
@@ -270,11 +270,14 @@ class SamplingPlanner:
         sampling_plan_name = os.path.splitext(sampling_plan_name)[0]
 
         full_name = self.data_dir + sampling_plan_name + '.pkl'
-        if not os.path.isfile(full_name) or self.overwrite:
-            save_pickle(full_name, self.sampling_plan)
-        else:
-            for i in range(1,10000):
-                full_name = self.data_dir + sampling_plan_name + str(i) + '.pkl'
-                if not os.path.isfile(full_name):
-                    save_pickle(full_name, self.sampling_plan)
-                    break
\ No newline at end of file
+        i = 0
+        while True:
+            if not os.path.isfile(full_name) or self.overwrite:
+                try:
+                    save_pickle(full_name, self.sampling_plan, overwrite=self.overwrite)
+                    break
+                except FileExistsError:
+                    # Another process was faster.
+                    pass
+            i += 1
+            full_name = self.data_dir + sampling_plan_name + str(i) + '.pkl'
\ No newline at end of file
diff --git a/do_mpc/tools/__init__.py b/do_mpc/tools/__init__.py
index 32751d3..242c002 100644
--- a/do_mpc/tools/__init__.py
+++ b/do_mpc/tools/__init__.py
@@ -25,7 +25,11 @@ Various auxiliary tools for do-mpc.
 """
 
 
+import os
+import errno
+import uuid
 import pickle
+from contextlib import contextmanager
 
 from ._indexedproperty import IndexedProperty
 from ._structure import Structure
@@ -33,9 +37,45 @@ from ._casstructure import *
 from ._timer import Timer
 
 
-def save_pickle(filename, data):
-    filename = filename.replace('.pkl','')
-    with open(filename + '.pkl', 'wb') as f:
+@contextmanager
+def atomic_write(path, overwrite=True):
+    """
+    Context manager to write the binary file ``path`` atomically: the file appears under its name (or replaces the previous file)
+    only after everything was written. An interrupted or failed write leaves the previous state.
+
+    Args:
+        path: Name of the file
+        overwrite: If ``False``, an existing file is never replaced.
+
+    Raises:
+        FileExistsError: ``path`` exists (and ``overwrite`` is ``False``).
+    """
+    tmp = '{path}.{id}.tmp'.format(path=path, id=uuid.uuid4().hex)
+    try:
+        with open(tmp, 'xb') as f:
+            yield f
+        if overwrite:
+            os.replace(tmp, path)
+        else:
+            try:
+                os.link(tmp, path)
+            except OSError as e:
+                if e.errno not in (errno.EPERM, errno.ENOSYS, errno.EOPNOTSUPP):
+                    raise
+                # File system without hard links: reserve the name first.
+                open(path, 'xb').close()
+                os.replace(tmp, path)
+    finally:
+        try:
+            os.remove(tmp)
+        except OSError:
+            pass
+
+
+def save_pickle(filename, data, overwrite=True):
+    if filename.endswith('.pkl'):
+        filename = filename[:-len('.pkl')]
+    with atomic_write(filename + '.pkl', overwrite=overwrite) as f:
         pickle.dump(data, f)
 
 def load_pickle(path_to_file):
-- 
2.43.0


From abcdbce6db1b5b8c29823ce92743c547d3cfa074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:42 +0000
Subject: [PATCH 05/27] fix: DataHandler: missing samples were cached, list
 indices and filters with local variables raised

---
 do_mpc/sampling/_datahandler.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 8ddb6e6..816a572 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -89,7 +89,7 @@ class DataHandler:
         self.sampling_vars = list(sampling_plan[0].keys())
         self.post_processing = {}
 
-        self.pre_loaded_data = {'id':[], 'data':[]}
+        self.pre_loaded_data = {}
 
         if kwargs:
             self.set_param(**kwargs)
@@ -112,8 +112,10 @@ class DataHandler:
         try:
             if isinstance(ind, int):
                 samples = [self.sampling_plan[ind]]
-            elif isinstance(ind, (tuple, slice, list)):
+            elif isinstance(ind, slice):
                 samples = self.sampling_plan[ind]
+            elif isinstance(ind, (tuple, list)):
+                samples = [self.sampling_plan[i] for i in ind]
             else:
                 raise Exception('ind must be of type int, tuple, slice or list. You have {}'.format(type(ind)))
         except IndexError:
@@ -136,13 +138,13 @@ class DataHandler:
     def _lazy_loading(self,sample):
         """ Private method: Checks if data is already loaded to reduce the computational load.
         """
-        if sample['id'] in self.pre_loaded_data['id']:
-            ind = self.pre_loaded_data['id'].index(sample['id'])
-            result = self.pre_loaded_data['data'][ind]
-        else:
+        key = (self.data_dir, self.sample_name, self.save_format, sample['id'])
+        result = self.pre_loaded_data.get(key)
+        if result is None:
             result = self._load(sample['id'])
-            self.pre_loaded_data['id'].append(sample['id'])
-            self.pre_loaded_data['data'].append(result)
+            # A sample that does not exist yet may be generated later.
+            if result is not None:
+                self.pre_loaded_data[key] = result
 
         return result
 
@@ -218,14 +220,14 @@ class DataHandler:
             if input_filter is None:
                 return True
             else:
-                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in input_filter.__code__.co_varnames})
+                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in signature(input_filter).parameters})
 
         # Wrapper to ensure arbitrary arguments are accepted
         def wrap_fun_out(**kwargs):
             if output_filter is None:
                 return True
             else:
-                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in output_filter.__code__.co_varnames})
+                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in signature(output_filter).parameters})
 
         # For each sample:
         for sample in self.sampling_plan:
-- 
2.43.0


From 686950bd830bae037d2411a81c651f7285bcab08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 06/27] fix: a failing or interrupted make_step left state,
 records or solver data of an incomplete step behind; unsolved algebraic
 equations went unnoticed in the discrete simulator

---
 do_mpc/controller/_lqr.py   |  1 +
 do_mpc/simulator.py         |  3 +++
 do_mpc/tools/__init__.py    |  1 +
 do_mpc/tools/_atomicstep.py | 46 +++++++++++++++++++++++++++++++++++++
 4 files changed, 51 insertions(+)
 create mode 100644 do_mpc/tools/_atomicstep.py

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 44052b9..da447c8 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -267,6 +267,7 @@ class LQR(IteratedVariables):
             else:
                 print('Warning: Key {} does not exist for MPC.'.format(key))
                 
+    @do_mpc.tools.atomic_step
     def make_step(self,x0:np.ndarray)->np.ndarray:
         """Main method of the class during runtime. This method is called at each timestep
         and returns the control input for the current initial state.
diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index 13426fc..aa8b037 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -596,6 +596,8 @@ class Simulator(do_mpc.model.IteratedVariables):
         if self.model.model_type == 'discrete':
             if self.model.n_z > 0: # Solve DAE only when it exists ...
                 r = self.discrete_dae_solver(x0 = sim_z_num, ubg = 0, lbg = 0, p=castools.vertcat(sim_x_num,sim_p_num))
+                if not self.discrete_dae_solver.stats()['success']:
+                    raise RuntimeError('The algebraic equations could not be solved.')
                 sim_z_num.master = r['x']
             x_new = self.simulator(sim_x_num, sim_z_num, sim_p_num)
         elif self.model.model_type == 'continuous':
@@ -614,6 +616,7 @@ class Simulator(do_mpc.model.IteratedVariables):
 
         return x_new
 
+    @do_mpc.tools.atomic_step
     def make_step(self, u0:np.ndarray=None, v0:np.ndarray=None, w0:np.ndarray=None)-> np.ndarray:
         """Main method of the simulator class during control runtime. This method is called at each timestep
         and computes the next state or the current control input :py:obj:`u0`. The method returns the resulting measurement,
diff --git a/do_mpc/tools/__init__.py b/do_mpc/tools/__init__.py
index 242c002..547c911 100644
--- a/do_mpc/tools/__init__.py
+++ b/do_mpc/tools/__init__.py
@@ -35,6 +35,7 @@ from ._indexedproperty import IndexedProperty
 from ._structure import Structure
 from ._casstructure import *
 from ._timer import Timer
+from ._atomicstep import atomic_step
 
 
 @contextmanager
diff --git a/do_mpc/tools/_atomicstep.py b/do_mpc/tools/_atomicstep.py
new file mode 100644
index 0000000..03bf1bf
--- /dev/null
+++ b/do_mpc/tools/_atomicstep.py
@@ -0,0 +1,46 @@
+from functools import wraps
+
+import casadi.tools as castools
+
+# What a call of make_step may change:
+_STATE = ('_x0', '_u0', '_z0', '_t0', '_p_est0', 'flags',
+          'sim_x_num', 'sim_z_num', 'sim_p_num', 'sim_aux_num',
+          '_opt_x_num', 'opt_x_num_unscaled', '_opt_p_num', 'opt_aux_num', 'opt_g_num',
+          'lam_g_num', 'lam_x_num', 'solver_stats', 'xss', 'uss')
+
+
+def _content(val):
+    if isinstance(val, castools.structure3.DMStruct):
+        return castools.DM(val.master)
+    if isinstance(val, dict):
+        return dict(val)
+    return None
+
+
+def atomic_step(make_step):
+    """Decorator for ``make_step``: if the step fails (e.g. because a user function, the solver or the integrator raises an error,
+    or because it is interrupted), the object and its recorded data are as they were before the call.
+    """
+    @wraps(make_step)
+    def wrapper(self, *args, **kwargs):
+        attr = self.__dict__
+        saved = {key: (attr[key], _content(attr[key])) for key in _STATE if key in attr}
+        fields = {key: getattr(self.data, key) for key in self.data.data_fields}
+        try:
+            return make_step(self, *args, **kwargs)
+        except BaseException:
+            for key in _STATE:
+                if key not in saved:
+                    attr.pop(key, None)
+                    continue
+                val, content = saved[key]
+                if isinstance(val, dict):
+                    val.clear()
+                    val.update(content)
+                elif content is not None:
+                    val.master = content
+                attr[key] = val
+            for key, val in fields.items():
+                setattr(self.data, key, val)
+            raise
+    return wrapper
-- 
2.43.0


From 2540b25537f52ca8fd286c3be2a429f5f58025b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 07/27] fix: MPC: failing steps, terminal bounds (getter,
 aliasing of state bounds, changes after setup), scenario indices of algebraic
 states and terminal cost, user-defined rterm with scaling, nonlinear
 constraints at collocation points

---
 do_mpc/controller/_mpc.py | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index ec19579..b9533bf 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -431,10 +431,9 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         assert bound_type in ('lower', 'upper'), err_msg.format(bound_type)
 
         if bound_type == 'lower':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='lb')
+            query = '_x_terminal_lb'
         elif bound_type == 'upper':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='ub')
-        # query results string e.g. _x_lb, _x_ub
+            query = '_x_terminal_ub'
 
         # Get the desired struct:
         var_struct = getattr(self, query)
@@ -468,8 +467,16 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         assert (var_name[0] if isinstance(var_name, tuple) else var_name) in var_struct.keys(), err_msg.format(ind, var_struct.keys())
 
         # Set value on struct:
+        # Terminal bounds which default to the bounds of the states are from now on independent of them.
+        if var_struct is self._x_lb or var_struct is self._x_ub:
+            var_struct = self.model._x(castools.DM(var_struct.cat))
+            setattr(self, query, var_struct)
+
         var_struct[var_name] = val
 
+        if self.flags['prepare_nlp']:
+            self._update_bounds()
+
     def set_param(self, **kwargs)->None:
         """Set the parameters of the :py:class:`MPC` class. Parameters must be passed as pairs of valid keywords and respective argument.
         
@@ -963,6 +970,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
         self.flags['set_initial_guess'] = True
 
+    @do_mpc.tools.atomic_step
     def make_step(self, x0:Union[np.ndarray,castools.DM])->np.ndarray:
         """Main method of the class during runtime. This method is called at each timestep
         and returns the control input for the current initial state :py:obj:`x0`.
@@ -1187,6 +1195,8 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                 for b in range(n_branches[k]):
                     # Obtain the index of the parameter values that should be used for this scenario
                     current_scenario = b + branch_offset[k][s]
+                    # Child scenario, which numbers the states at k+1 and the algebraic states of the interval from k to k+1
+                    s_next = child_scenario[k][s][b]
 
                     # Compute constraints and predicted next state of the discretization scheme
                     col_xk = castools.vertcat(*opt_x['_x', k+1, child_scenario[k][s][b], :-1])
@@ -1206,11 +1216,13 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     cons_ub.append(np.zeros((self.model.n_x, 1)))
 
                     k_eps = min(k, n_eps-1)
-                    if self._settings.nl_cons_check_colloc_points:
+                    if self._settings.nl_cons_check_colloc_points and n_total_coll_points > 0:
                         # Ensure nonlinear constraints on all collocation points
                         for i in range(n_total_coll_points):
+                            # Points of the interval from k to k+1 (the first one is the state at k)
+                            x_ki = opt_x_unscaled['_x', k, s, -1] if i == 0 else opt_x_unscaled['_x', k+1, s_next, i-1]
                             nl_cons_k = self._nl_cons_fun(
-                                opt_x_unscaled['_x', k, s, i], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, i],
+                                x_ki, opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s_next, i],
                                 opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                             cons.append(nl_cons_k)
                             cons_lb.append(self._nl_cons_lb)
@@ -1218,7 +1230,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     else:
                         # Ensure nonlinear constraints only on the beginning of the FE
                         nl_cons_k = self._nl_cons_fun(
-                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, 0],
+                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s_next, 0],
                             opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                         cons.append(nl_cons_k)
                         cons_lb.append(self._nl_cons_lb)
@@ -1229,24 +1241,24 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Add contribution to the cost
                     obj += omega[k] * self.lterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, s_next, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Add slack variables to the cost
                     obj += self.epsterm_fun(opt_x_unscaled['_eps', k_eps, s])
 
                     # In the last step add the terminal cost too
                     if k == self._settings.n_horizon - 1:
-                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, s, -1], opt_p['_tvp', k+1],
+                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, s_next, -1], opt_p['_tvp', k+1],
                                                          opt_p['_p', current_scenario])
 
                     # U regularization:
                     # For user defined penalty term
                     if self.flags['rterm_fun'] == True:
                         if k==0:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev']/self._u_scaling,
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev'],
+                                                     opt_x_unscaled['_z', k, s_next, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x['_u', k-1, parent_scenario[k][s_u]],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_u', k-1, parent_scenario[k][s_u]],
+                                                     opt_x_unscaled['_z', k, s_next, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
                         if k == 0:
@@ -1256,7 +1268,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Calculate the auxiliary expressions for the current scenario:
                     opt_aux['_aux', k, s] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s_next, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
                     # For some reason when working with MX, the "unused" aux values in the scenario tree must be set explicitly (they are not ever used...)
                 for s_ in range(n_scenarios[k],n_max_scenarios):
-- 
2.43.0


From 2e4ad1e81e4d05d067768439a9705ff39037026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 08/27] fix: MHE: failing steps, scaled estimated parameters in
 measurements, costs and constraints, algebraic states in measurements,
 nonlinear constraints at collocation points

---
 do_mpc/estimator/_mhe.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 8b77e9a..e60f7f5 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -890,6 +890,7 @@ class MHE(Optimizer, Estimator):
         self.create_nlp()
 
 
+    @do_mpc.tools.atomic_step
     def make_step(self, y0:np.ndarray)->np.ndarray:
         """Main method of the class during runtime. This method is called at each timestep
         and returns the current state estimate for the current measurement ``y0``.
@@ -1112,6 +1113,7 @@ class MHE(Optimizer, Estimator):
 
         # Get concatenated parameters vector containing the estimated and fixed parameters (scaled)
         _p = self._p_cat_fun(opt_x['_p_est'], opt_p['_p_set']/self._p_set_scaling)
+        _p_unscaled = self._p_cat_fun(opt_x_unscaled['_p_est'], opt_p['_p_set'])
 
         # For all control intervals
         for k in range(self.settings.n_horizon):
@@ -1123,8 +1125,8 @@ class MHE(Optimizer, Estimator):
                                    _p, opt_x['_w', k])
 
             # Compute current measurement
-            yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                opt_p['_tvp', k], _p, opt_x_unscaled['_v', k])
+            yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1],
+                opt_p['_tvp', k], _p_unscaled, opt_x_unscaled['_v', k])
 
             # Add the collocation equations
             cons.append(g_ksb)
@@ -1142,12 +1144,14 @@ class MHE(Optimizer, Estimator):
             cons_ub.append(np.zeros((self.model.n_y, 1)))
 
             k_eps = min(k, n_eps-1)
-            if self.settings.nl_cons_check_colloc_points:
+            if self.settings.nl_cons_check_colloc_points and n_total_coll_points > 0:
                 # Ensure nonlinear constraints on all collocation points
                 for i in range(n_total_coll_points):
+                    # Points of the interval from k to k+1 (the first one is the state at k)
+                    x_ki = opt_x_unscaled['_x', k, -1] if i == 0 else opt_x_unscaled['_x', k+1, i-1]
                     nl_cons_k = self._nl_cons_fun(
-                        opt_x_unscaled['_x', k, i], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
-                        opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                        x_ki, opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
+                        opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                     cons.append(nl_cons_k)
                     cons_lb.append(self._nl_cons_lb)
                     cons_ub.append(self._nl_cons_ub)
@@ -1155,7 +1159,7 @@ class MHE(Optimizer, Estimator):
                 # Ensure nonlinear constraints only on the beginning of the FE
                 nl_cons_k = self._nl_cons_fun(
                     opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                    opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                    opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                 cons.append(nl_cons_k)
                 cons_lb.append(self._nl_cons_lb)
                 cons_ub.append(self._nl_cons_ub)
@@ -1165,7 +1169,7 @@ class MHE(Optimizer, Estimator):
             cons_ub.append(self._nl_cons_ub)
 
             obj += self.stage_cost_fun(
-                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p
+                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p_unscaled
             )
 
             # Add slack variables to the cost
@@ -1174,7 +1178,7 @@ class MHE(Optimizer, Estimator):
 
             # Calculate the auxiliary expressions for the current scenario:
             opt_aux['_aux', k] = self.model._aux_expression_fun(
-                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p)
+                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p_unscaled)
 
         self._update_bounds()
 
-- 
2.43.0


From 0cb440f108ffa500026d92ea9f3a9072ea9a1789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 09/27] fix: instances shared state: integrator options of all
 continuous simulators, indexed properties (bounds, scaling, nl_cons) of the
 last accessed controller; initial guess of algebraic states aliased

---
 do_mpc/simulator.py              |  7 +++---
 do_mpc/tools/_indexedproperty.py | 40 +++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index aa8b037..8e8ae72 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -31,7 +31,7 @@ import pdb
 import warnings
 import do_mpc
 from typing import Union,Callable
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Dict
 
 
@@ -61,6 +61,7 @@ class SimulatorSettings:
             raise ValueError("t_step must be set")
 
 
+@dataclass
 class ContinousSimulatorSettings(SimulatorSettings):
     """Settings for :py:class:`Simulator` for continous-time systems.
     
@@ -96,7 +97,7 @@ class ContinousSimulatorSettings(SimulatorSettings):
     integration_tool: str = 'cvodes'
     """Integration tool to be used. Options are 'cvodes' and 'idas'"""
 
-    integration_opts: Dict = {}
+    integration_opts: Dict = field(default_factory=dict)
     """Dictionary with options for the CasADi integrator call. Used tu update the opts dict in :py:func:`setup`.
     
     All options are listed `here <https://casadi.sourceforge.net/api/html/db/d3d/classcasadi_1_1Integrator.html>`_."""
@@ -700,7 +701,7 @@ class Simulator(do_mpc.model.IteratedVariables):
         self.data.update(_time = t0)
 
         self._x0.master = x_next
-        self._z0.master = z0
+        self._z0.master = z_next
         self._u0.master = u0
         self._t0 = self._t0 + self._settings.t_step 
 
diff --git a/do_mpc/tools/_indexedproperty.py b/do_mpc/tools/_indexedproperty.py
index 93542e6..53b33bf 100644
--- a/do_mpc/tools/_indexedproperty.py
+++ b/do_mpc/tools/_indexedproperty.py
@@ -6,12 +6,10 @@ class IndexedProperty(object):
     See for example: https://docs.python.org/3/howto/descriptor.html
 
     The main tweak is __get__, where the above mentionned implementation
-    directly calls the fget function. We instead return the class instance itself,
-    where the parent class is now added to the class dict.
+    directly calls the fget function. We instead return a small object which knows the property
+    and the instance of the parent class.
     Since the call is followed by brackets, immediatly the __getitem__ or __setitem__
-    methods are invoked. These methods are lacking the parent class but it now
-    exists in the scope of the property instance.
-    We can therefore call fget or fset with the parent class.
+    methods of this object are invoked, which call fget or fset with the parent class.
     """
 
     def __init__(self, fget=None, fset=None, doc=None):
@@ -22,14 +20,7 @@ class IndexedProperty(object):
         self.__doc__ = doc
 
     def __get__(self, obj, objtype=None):
-        self.obj = obj
-        return self
-
-    def __getitem__(self,ind):
-        return self.fget(self.obj,ind)
-
-    def __setitem__(self,ind, val):
-        return self.fset(self.obj,ind,val)
+        return BoundIndexedProperty(self, obj)
 
     def getter(self, fget):
         @wraps(fget)
@@ -43,3 +34,26 @@ class IndexedProperty(object):
             return fset(obj, *args, **kwargs)
         self.fset = wrapper
         return type(self)(self.fget, wrapper, self.__doc__)
+
+
+class BoundIndexedProperty(object):
+    """
+    Returned by :py:class:`IndexedProperty` when the property is accessed from an instance ``obj`` of the parent class.
+    """
+
+    def __init__(self, prop, obj):
+        self.prop = prop
+        self.obj = obj
+        self.__doc__ = prop.__doc__
+
+    def __getitem__(self, ind):
+        return self.prop.fget(self.obj, ind)
+
+    def __setitem__(self, ind, val):
+        return self.prop.fset(self.obj, ind, val)
+
+    def setter(self, fset):
+        return self.prop.setter(fset)
+
+    def getter(self, fget):
+        return self.prop.getter(fget)
-- 
2.43.0


From c5dd28bfa2c4d3ba2d7efe6e863cd506f91823d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 10/27] fix: Timer measured with the adjustable wall clock

---
 do_mpc/tools/_timer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/tools/_timer.py b/do_mpc/tools/_timer.py
index d247b05..067c0d2 100644
--- a/do_mpc/tools/_timer.py
+++ b/do_mpc/tools/_timer.py
@@ -24,12 +24,12 @@ class Timer:
         self.t_list = []
 
     def tic(self):
-        self.t_start = time.time()
+        self.t_start = time.perf_counter()
 
     def toc(self):
-        assert self.t_start, 'Cannot call toc before toc.'
+        assert self.t_start is not None, 'Cannot call toc before toc.'
 
-        t_now = time.time()
+        t_now = time.perf_counter()
         self.t_list.append(t_now-self.t_start)
 
         self.t_start = None
-- 
2.43.0


From 42a75ba595c232ee15b12eedd6bd0566cc0f2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 11/27] fix: estimator reset_history kept the time

---
 do_mpc/estimator/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/do_mpc/estimator/_base.py b/do_mpc/estimator/_base.py
index 9f64eb8..29228dc 100644
--- a/do_mpc/estimator/_base.py
+++ b/do_mpc/estimator/_base.py
@@ -50,6 +50,7 @@ class Estimator(do_mpc.model.IteratedVariables):
         """Reset the history of the estimator
         """
         self.data.init_storage()
+        self._t0 = np.array([0])
 
 
 class StateFeedback(Estimator):
-- 
2.43.0


From de1f165815d4a08a2173de0caf2a2f20981404c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 12/27] fix: LQR: set-point changes with input rate
 penalization, rejected set-points, casadi states

---
 do_mpc/controller/_lqr.py | 40 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index da447c8..0069a97 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -289,6 +289,9 @@ class LQR(IteratedVariables):
         else:
             raise Exception('Invalid type {} for x0. Must be {}'.format(type(x0), (np.ndarray, castools.DM, castools.structure3.DMStruct)))
 
+        if isinstance(x0, castools.DM):
+            x0 = x0.full()
+
         #setting setpoints
         if not hasattr(self, "xss") and not hasattr(self,"uss"):
             self.set_setpoint()
@@ -314,7 +317,7 @@ class LQR(IteratedVariables):
 
         # Update initial
         self._t0 = self._t0 + self.settings.t_step
-        self._x0.master = x0
+        self._x0.master = castools.DM(x0)
         self._u0.master = castools.DM(u0)
         
         return u0
@@ -444,30 +447,33 @@ class LQR(IteratedVariables):
         """
         assert self.flags['setup'] == True, 'LQR is not setup. Run setup() function.'
 
-        # Set or reset xss. Don't change xss if it already exists and uss is not passed
+        n_x, n_u = self.model.n_x, self.model.n_u
+        rated = self.mode == 'inputRatePenalization'
+
+        # Set or reset xss. Don't change xss if it already exists and xss is not passed
         if isinstance(xss, np.ndarray):
-            self.xss = xss
+            xss_new = xss
         elif hasattr(self,'xss'):
-            pass
+            xss_new = self.xss[:n_x]
         else:
-            self.xss = np.zeros((self.model.n_x,1))
+            xss_new = np.zeros((n_x,1))
 
         # Set or reset uss. Don't change uss if it already exists and uss is not passed
         if isinstance(uss, np.ndarray): 
-            self.uss = uss
+            uss_new = uss
         elif hasattr(self,'uss'):
-            pass
+            # with input rate penalization, the setpoint of the inputs is part of the augmented states
+            uss_new = self.xss[n_x:] if rated else self.uss
         else:
-            self.uss = np.zeros((self.model.n_u,1))
-        
-        if self.mode == 'inputRatePenalization':
-            self.xss = np.block([[self.xss],[self.uss]])
-            self.uss = np.zeros((self.model.n_u,1))
-            assert self.xss.shape == (self.model.n_x+self.model.n_u,1), 'xss must be of shape {}. You have {}'.format((self.model.n_x+self.model.n_u,1),self.xss.shape)
-        
-        if self.mode == 'standard':
-            assert self.xss.shape == (self.model.n_x,1), 'xss must be of shape {}. You have {}'.format((self.model.n_x,1),self.xss.shape)
-        assert self.uss.shape == (self.model.n_u,1), 'uss must be of shape {}. You have {}'.format((self.model.n_u,1),self.uss.shape)
+            uss_new = np.zeros((n_u,1))
+
+        assert xss_new.shape == (n_x,1), 'xss must be of shape {}. You have {}'.format((n_x,1),xss_new.shape)
+        assert uss_new.shape == (n_u,1), 'uss must be of shape {}. You have {}'.format((n_u,1),uss_new.shape)
+
+        if rated:
+            self.xss, self.uss = np.block([[xss_new],[uss_new]]), np.zeros((n_u,1))
+        else:
+            self.xss, self.uss = np.array(xss_new), np.array(uss_new)
     
     def setup(self)->None:
         """Prepares :py:class:`LQR` for execution.
-- 
2.43.0


From e9df84cd3e7a31e977004661672be184a3ad914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 13/27] fix: x0, u0, z0 and p_est0 shared memory with the
 caller's variables and other instances

---
 do_mpc/model/_iteratedvariables.py | 5 +++--
 do_mpc/simulator.py                | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/do_mpc/model/_iteratedvariables.py b/do_mpc/model/_iteratedvariables.py
index 9a1d35e..34bd7cf 100644
--- a/do_mpc/model/_iteratedvariables.py
+++ b/do_mpc/model/_iteratedvariables.py
@@ -65,9 +65,10 @@ class IteratedVariables:
 
         # Convert to structure (or return structure)
         if isinstance(val, (np.ndarray, castools.DM)):
-            val = struct(val)
+            val = struct(castools.DM(val))
         elif isinstance(val, castools.structure3.DMStruct):
-            pass
+            # Copy, such that several instances never share one variable.
+            val = struct(castools.DM(val.cat))
         else:
             types = (np.ndarray, castools.DM, castools.structure3.DMStruct)
             raise Exception('x0 must be of tpye {}. You have: {}'.format(types, type(val)))
diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index 8e8ae72..f211e29 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -702,7 +702,7 @@ class Simulator(do_mpc.model.IteratedVariables):
 
         self._x0.master = x_next
         self._z0.master = z_next
-        self._u0.master = u0
+        self._u0.master = castools.DM(u0.cat if isinstance(u0, castools.structure3.DMStruct) else u0)
         self._t0 = self._t0 + self._settings.t_step 
 
         self.flags['first_step'] = False
-- 
2.43.0


From da6af02da3aff9a7997a7e02c243fa9667f7385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 14/27] fix: MHE: state bounds at the ends of the window
 without cons_check_colloc_points; interrupts swallowed while the window is
 filled

---
 do_mpc/estimator/_mhe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index e60f7f5..e890670 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -847,7 +847,7 @@ class MHE(Optimizer, Estimator):
                 try:
                     for k in range(self.settings.n_horizon-n_steps):
                         y_template['y_meas',k] = self.data._y[-n_steps]
-                except:
+                except IndexError:
                     None
                 return y_template
             self.set_y_fun(y_fun)
@@ -1006,8 +1006,8 @@ class MHE(Optimizer, Estimator):
             self.ub_opt_x['_z'] = self._z_ub.cat
         else:   # Constraints only at the beginning of the finite Element
             # Bounds for the states on all discretize values along the horizon
-            self.lb_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_lb.cat
-            self.ub_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_ub.cat
+            self.lb_opt_x['_x', :, -1] = self._x_lb.cat
+            self.ub_opt_x['_x', :, -1] = self._x_ub.cat
 
             # Bounds for the algebraic states along the horizon
             self.lb_opt_x['_z', :, 0] = self._z_lb.cat
-- 
2.43.0


From 868d083f948b84b704619f1f9b20ee0a47bcf5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 15/27] fix: MHE recorded a time-varying parameter outside the
 window

---
 do_mpc/estimator/_mhe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index e890670..4586795 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -962,7 +962,7 @@ class MHE(Optimizer, Estimator):
         self.data.update(_u = u0)
         self.data.update(_z = z0)
         self.data.update(_p = p0)
-        self.data.update(_tvp = tvp0['_tvp', -1])
+        self.data.update(_tvp = tvp0['_tvp', self.settings.n_horizon-1])
         self.data.update(_time = t0)
         self.data.update(_aux = aux0)
 
-- 
2.43.0


From a2ff66990e8e82eb06c6c50ad6183f46f7507da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 16/27] fix: a rejected terminal bound detached the terminal
 bounds from the state bounds

---
 do_mpc/controller/_mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index b9533bf..9435d87 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -470,9 +470,9 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         # Terminal bounds which default to the bounds of the states are from now on independent of them.
         if var_struct is self._x_lb or var_struct is self._x_ub:
             var_struct = self.model._x(castools.DM(var_struct.cat))
-            setattr(self, query, var_struct)
 
         var_struct[var_name] = val
+        setattr(self, query, var_struct)
 
         if self.flags['prepare_nlp']:
             self._update_bounds()
-- 
2.43.0


From a32f8a168a53bd7ff9fbe5563e1bb76837a896da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 17/27] fix: results queried by several threads (or after an
 interrupted query) were those of another variable; predictions of algebraic
 states and of n_robust>=3 mixed scenarios

---
 do_mpc/data.py      | 67 +++++++++++++++++++++++----------------------
 do_mpc/optimizer.py |  5 ++--
 2 files changed, 37 insertions(+), 35 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 4cb59df..d744fdb 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -140,14 +140,15 @@ class Data:
 
         if len(ind)>1:
             # If further indices exist:
-            if ind in self.result_queries['ind']:
-                i = self.result_queries['ind'].index(ind)
-                f_ind = self.result_queries['f_ind'][i]
+            queries = self.result_queries
+            if ind in queries['ind']:
+                i = queries['ind'].index(ind)
+                f_ind = queries['f_ind'][i]
             else:
                 powerind = ind[1:]
                 f_ind = self.model[data_field].f[powerind]
-                self.result_queries['ind'].append(ind)
-                self.result_queries['f_ind'].append(f_ind)
+                # Replace (and never modify) the stored queries, other threads may use them:
+                self.result_queries = {'ind': queries['ind']+[ind], 'f_ind': queries['f_ind']+[f_ind]}
             out = getattr(self, data_field)[:, f_ind]
 
         else:
@@ -298,34 +299,39 @@ class MPCData(Data):
 
         structure_scenario = self.meta_data['structure_scenario']
 
-        if self._opt_x_num.shape[0]==0:
+        # Queries are replaced (and never modified), other threads may use them.
+        queries = self.prediction_queries
+
+        _opt_x_num = self._opt_x_num
+        _opt_p_num = self.opt_p_num
+        _opt_aux_num = self._opt_aux_num
+        # Without results (the fields are updated one after another if this is called during an MPC step):
+        if _opt_x_num.shape[0]==0:
             _opt_x_num = np.zeros((1,self.opt_x.shape[0]))
+        if _opt_p_num.shape[0]==0:
             _opt_p_num = np.zeros((1,self.opt_p.shape[0]))
+        if _opt_aux_num.shape[0]==0:
             _opt_aux_num = np.zeros((1,self.opt_aux.shape[0]))
-        else:
-            _opt_x_num = self._opt_x_num
-            _opt_p_num = self.opt_p_num
-            _opt_aux_num = self._opt_aux_num
 
         if ind[0] in ['_x', '_z']:
-            if ind in self.prediction_queries['ind']:
-                i = self.prediction_queries['ind'].index(ind)
-                f_ind = self.prediction_queries['f_ind'][i]
+            if ind in queries['ind']:
+                i = queries['ind'].index(ind)
+                f_ind = queries['f_ind'][i]
             else:
                 f_ind = self.opt_x.f[(ind[0], slice(None), lambda v: castools.horzcat(*v),slice(None), -1)+ind[1:]]
                 f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # sort pred such that each column belongs to one scenario
-                # - By indexing structure_scenario until f_ind.shape[0] we cover the case of _x and _z at the same time
-                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:f_ind.shape[0],:].T].T
+                # - By indexing structure_scenario from the end we cover the case of _x and _z at the same time:
+                #   _z at stage k belongs to the branches which lead to the states at stage k+1.
+                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[-f_ind.shape[0]:,:].T].T
                 # Store f_ind:
-                self.prediction_queries['ind'].append(ind)
-                self.prediction_queries['f_ind'].append(f_ind)
+                self.prediction_queries = {'ind': queries['ind']+[ind], 'f_ind': queries['f_ind']+[f_ind]}
             out = _opt_x_num[t_ind,f_ind]
 
         elif ind[0] =='_u':
-            if ind in self.prediction_queries['ind']:
-                i = self.prediction_queries['ind'].index(ind)
-                f_ind = self.prediction_queries['f_ind'][i]
+            if ind in queries['ind']:
+                i = queries['ind'].index(ind)
+                f_ind = queries['f_ind'][i]
             else:
                 f_ind = self.opt_x.f[(ind[0], slice(None), lambda v: castools.horzcat(*v),slice(None))+ind[1:]]
                 f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
@@ -336,35 +342,32 @@ class MPCData(Data):
                     f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T
 
                 # Store f_ind:
-                self.prediction_queries['ind'].append(ind)
-                self.prediction_queries['f_ind'].append(f_ind)
+                self.prediction_queries = {'ind': queries['ind']+[ind], 'f_ind': queries['f_ind']+[f_ind]}
             out = _opt_x_num[t_ind,f_ind]
 
         elif ind[0]=='_tvp':
-            if ind in self.prediction_queries['ind']:
-                i = self.prediction_queries['ind'].index(ind)
-                f_ind = self.prediction_queries['f_ind'][i]
+            if ind in queries['ind']:
+                i = queries['ind'].index(ind)
+                f_ind = queries['f_ind'][i]
             else:
                 f_ind = self.opt_p.f[(ind[0], slice(None))+ind[1:]]
                 f_ind = np.array(f_ind).reshape(1, -1, 1)
                 #f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # Store f_ind:
-                self.prediction_queries['ind'].append(ind)
-                self.prediction_queries['f_ind'].append(f_ind)
+                self.prediction_queries = {'ind': queries['ind']+[ind], 'f_ind': queries['f_ind']+[f_ind]}
             out = _opt_p_num[t_ind,f_ind]
 
         elif ind[0]=='_aux':
-            if ind in self.prediction_queries['ind']:
-                i = self.prediction_queries['ind'].index(ind)
-                f_ind = self.prediction_queries['f_ind'][i]
+            if ind in queries['ind']:
+                i = queries['ind'].index(ind)
+                f_ind = queries['f_ind'][i]
             else:
                 f_ind = self.opt_aux.f[(ind[0], slice(None), lambda v: castools.horzcat(*v),slice(None))+ind[1:]]
                 f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # sort pred such that each column belongs to one scenario
                 f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:-1,:].T].T
                 # Store f_ind:
-                self.prediction_queries['ind'].append(ind)
-                self.prediction_queries['f_ind'].append(f_ind)
+                self.prediction_queries = {'ind': queries['ind']+[ind], 'f_ind': queries['f_ind']+[f_ind]}
             out = _opt_aux_num[t_ind,f_ind]
         else:
             raise ValueError('Index {} not recognized.'.format(ind[0]))
diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 4a2dff7..77b47c8 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -1004,7 +1004,8 @@ class Optimizer:
         child_scenario = -1 * np.ones((nk, n_scenarios[-1], n_branches[0])).astype(int)
         parent_scenario = -1 * np.ones((nk + 1, n_scenarios[-1])).astype(int)
         branch_offset = -1 * np.ones((nk, n_scenarios[-1])).astype(int)
-        structure_scenario = np.zeros((nk + 1, n_scenarios[-1])).astype(int)
+        # Node at stage k (row) that belongs to each of the final scenarios (column)
+        structure_scenario = np.array([np.arange(n_scenarios[-1])//(n_scenarios[-1]//n_scenarios[k]) for k in range(nk + 1)]).astype(int)
         # Fill in the auxiliary structures
         for k in range(nk):
             # Scenario counter
@@ -1014,8 +1015,6 @@ class Optimizer:
                 # For all uncertainty realizations
                 for b in range(n_branches[k]):
                     child_scenario[k][s][b] = scenario_counter
-                    structure_scenario[k][scenario_counter] = s
-                    structure_scenario[k+1][scenario_counter] = s
                     parent_scenario[k + 1][scenario_counter] = s
                     scenario_counter += 1
                 # Store the range of branches
-- 
2.43.0


From d2665c4826d99d5ef69897ef0389d633d11325db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:02 +0000
Subject: [PATCH 18/27] fix: compile_nlp: undefined nlpsol, failed or
 interrupted compilations, libraries loaded before from the same path,
 repeated compilation

---
 do_mpc/optimizer.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 77b47c8..3b058da 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -29,7 +29,9 @@ import pdb
 import do_mpc
 from typing import Union,Callable
 import os
+import shutil
 import subprocess
+import tempfile
 
 class Optimizer:
     """The base clase for the optimization based state estimation (MHE) and predictive controller (MPC).
@@ -705,6 +707,9 @@ class Optimizer:
             cname: Name of the C file that will be exported.
             libname: Name of the shared library that will be created after compilation.
             compiler_command: Command to use for compiling. If None, the default compiler command will be used. Please make sure to use matching strings for ``libname`` when supplying your custom compiler command.
+
+        Raises:
+            RuntimeError: The compilation failed. The previous solver is still used.
         """
         if not self.flags['setup']:
             raise Exception('Optimizer not setup. Call setup first.')
@@ -715,17 +720,30 @@ class Optimizer:
         if compiler_command is None:
             compiler_command = "gcc -fPIC -shared -O1 {cname} -o {libname}".format(cname=cname, libname=libname)
 
+        # Marks an unfinished compilation. It remains if the compilation fails or is interrupted.
+        unfinished = libname + '.unfinished'
+
         # Only compile if not already compiled:
-        if overwrite or not os.path.isfile(libname):
-            # Create c code from solver object
+        if overwrite or not os.path.isfile(libname) or os.path.isfile(unfinished):
+            open(unfinished, 'w').close()
+            if os.path.isfile(libname):
+                os.remove(libname)
+            # Create c code from solver object (not from a previously compiled one)
             print('Generating c-code of nlp.')
-            self.S.generate_dependencies(cname)
+            S = castools.nlpsol('S', 'ipopt', self.nlp, self.settings.nlpsol_opts)
+            S.generate_dependencies(cname)
             # Compile c code
             print('Compiling c-code of nlp.')
-            subprocess.Popen(compiler_command, shell=True).wait()
-
-        # Overwrite solver object with loaded nlp:
-        self.S = nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
+            returncode = subprocess.run(compiler_command, shell=True).returncode
+            if returncode != 0 or not os.path.isfile(libname):
+                raise RuntimeError('Compilation of the NLP failed (exit code {}): {}'.format(returncode, compiler_command))
+            os.remove(unfinished)
+
+        # Overwrite solver object with loaded nlp. The library is loaded from a new path because a library
+        # which was previously loaded from the same path (by any optimizer of this process) is not loaded again.
+        with tempfile.TemporaryDirectory() as tmp_dir:
+            tmp_libname = shutil.copy(libname, os.path.join(tmp_dir, 'nlp.so'))
+            self.S = castools.nlpsol('solver_compiled', 'ipopt', tmp_libname, self.settings.nlpsol_opts)
         print('Using compiled NLP solver.')
 
     def solve(self)->None:
-- 
2.43.0


From 5993c0c682266993c0964f4c02ebc0a1d3826479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 19/27] fix: t0 can be set with a casadi DM

---
 do_mpc/model/_iteratedvariables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_iteratedvariables.py b/do_mpc/model/_iteratedvariables.py
index 34bd7cf..f51f2b9 100644
--- a/do_mpc/model/_iteratedvariables.py
+++ b/do_mpc/model/_iteratedvariables.py
@@ -206,7 +206,7 @@ class IteratedVariables:
             assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
             self._t0 = val.flatten()
         elif isinstance(val, castools.DM):
-            assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
+            assert val.numel() == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.shape)
             self._t0 = val.full().flatten()
         else:
             types = (np.ndarray, float, int, castools.DM)
-- 
2.43.0


From 02aebc35db7b333acc75593ffb7e41911c72667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:26 +0000
Subject: [PATCH 20/27] fix: predictions of vector-valued time-varying
 parameters have one row for each element

---
 do_mpc/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index d744fdb..108d9fe 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -351,7 +351,8 @@ class MPCData(Data):
                 f_ind = queries['f_ind'][i]
             else:
                 f_ind = self.opt_p.f[(ind[0], slice(None))+ind[1:]]
-                f_ind = np.array(f_ind).reshape(1, -1, 1)
+                # The indices are sorted by time (one row of structure_scenario for each time), then by element:
+                f_ind = np.array(f_ind).reshape(structure_scenario.shape[0], -1, 1).swapaxes(0, 1)
                 #f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # Store f_ind:
                 self.prediction_queries = {'ind': queries['ind']+[ind], 'f_ind': queries['f_ind']+[f_ind]}
-- 
2.43.0


From 01273d633d1e94fd21ecbd01a7b5d76d6c01efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:38 +0000
Subject: [PATCH 21/27] fix: a model loaded from a pickle can be pickled again

---
 do_mpc/model/_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index 681aa34..91dc565 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -152,10 +152,10 @@ class Model:
         self.__dict__.update(state)
 
         # Update expressions with new symbolic variables created when unpickling:
-        self._rhs = self._rhs(self._rhs_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
-        self._alg = self._alg(self._alg_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
-        self._aux_expression = self._aux_expression(self._aux_expression_fun(self._x, self._u, self._z, self._tvp, self._p))
-        self._y_expression = self._y_expression(self._meas_fun(self._x, self._u, self._z, self._tvp, self._p, self._v))
+        self._rhs = self.sv.struct(self._rhs, data=self._rhs_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
+        self._alg = self.sv.struct(self._alg, data=self._alg_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
+        self._aux_expression = self.sv.struct(self._aux_expression, data=self._aux_expression_fun(self._x, self._u, self._z, self._tvp, self._p))
+        self._y_expression = self.sv.struct(self._y_expression, data=self._meas_fun(self._x, self._u, self._z, self._tvp, self._p, self._v))
 
 
     def __getitem__(self, ind):
-- 
2.43.0


From c28d4d94e8900e5245ede80ed804ece232293517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:20 +0000
Subject: [PATCH 22/27] fix: plots while results are recorded, of parameters of
 an MPC and of single algebraic states; animations of simulator results and of
 existing names

---
 do_mpc/graphics.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 2ade94d..b076048 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -271,9 +271,10 @@ class Graphics:
         if var_type == '_u':
             pltkwargs.update(drawstyle='steps-post')
 
-        self.result_lines[var_type, var_name] = axis.plot(self.data['_time'] , self.data[var_type, var_name], **pltkwargs)
+        self.result_lines[var_type, var_name] = axis.plot(*self._get_results((var_type, var_name)), **pltkwargs)
 
-        if self.data.dtype == 'MPC' and self.data.meta_data['store_full_solution']:
+        # Parameters are not part of the predicted trajectories.
+        if self.data.dtype == 'MPC' and self.data.meta_data['store_full_solution'] and var_type != '_p':
             # y_data has shape (n_elem, n_horizon, n_scenario), where n_elem = 1 for scalars and >1 for vectors
             y_data = self.data.prediction((var_type, var_name))
             x_data = np.zeros(y_data.shape[1])
@@ -286,6 +287,15 @@ class Graphics:
 
         self.ax_list.append(axis)
 
+    def _get_results(self, ind:tuple)->tuple:
+        """Private method to obtain the recorded time and the recorded values of a variable.
+        All fields of the data object are updated one after another. They are cut to the same length,
+        such that results can also be plotted (e.g. from another thread) while they are being recorded.
+        """
+        time, values = self.data['_time'], self.data[ind]
+        n_elem = min(time.shape[0], values.shape[0])
+        return time[:n_elem], values[:n_elem]
+
     def plot_results(self, t_ind:int=-1)->None:
         """Plots the results stored in the data object.
         Use the ``t_ind`` parameter to plot only until the given time index. This can be used in post-processing for animations.
@@ -303,11 +313,12 @@ class Graphics:
 
         for line_i, ind_i in zip(self.result_lines.master, self.result_lines.powerindex):
             # ind_i will look something like: ('_x', 'Temperature', 0) and is a tuple.
+            time, values = self._get_results(ind_i)
             if t_ind == -1:
                 # Non-inclusive indexing: Last element is missing due to slice ...
-                line_i.set_data(self.data['_time'] , self.data[ind_i])
+                line_i.set_data(time, values)
             else:
-                line_i.set_data(self.data['_time'][:t_ind+1] , self.data[ind_i][:t_ind+1])
+                line_i.set_data(time[:t_ind+1], values[:t_ind+1])
 
     def plot_predictions(self, t_ind:int=-1)->None:
         """Plots the predicted trajectories for the plot configuration.
@@ -335,10 +346,13 @@ class Graphics:
         assert self.data.dtype == 'MPC', 'Plotting predictions is only possible for MPC data.'
         assert self.data.meta_data['store_full_solution'], 'Optimal trajectory is not stored. Please update your MPC settings.'
         assert isinstance(t_ind, int), 't_ind argument must be of type integer.'
-        n_elem = self.data['_time'].shape[0]
+        # The fields are updated one after another. Use the last time for which all of them are recorded:
+        n_elem = min(self.data[field_i].shape[0] for field_i in ['_time', 'opt_p_num', '_opt_x_num', '_opt_aux_num'])
         assert abs(t_ind) <= n_elem, 't_ind={} argument is out of range for recorded data with {} elements.'.format(t_ind, n_elem)
+        if t_ind < 0:
+            t_ind = n_elem + t_ind
 
-        t_now = self.data._time[t_ind]
+        t_now = self.data._time[:n_elem][t_ind]
         t_step = self.data.meta_data['t_step']
 
         for line_i, ind_i in zip(self.pred_lines.master, self.pred_lines.powerindex):
@@ -382,7 +396,7 @@ def default_plot(data,
         # Pop default variable:
         dae_states_list.pop(0)
     else:
-        assert set(dae_states_list).issubset(data.model['_u'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
+        assert set(dae_states_list).issubset(data.model['_z'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
 
     if inputs_list is None:
         inputs_list = data.model['_u'].keys()
@@ -477,7 +491,8 @@ def animate(graphics:Graphics,
     def update(t_ind):
         print('Writing frame: {} of {}.'.format(t_ind, n_steps))
         graphics.plot_results(t_ind=t_ind)
-        graphics.plot_predictions(t_ind=t_ind)
+        if graphics.pred_lines.full:
+            graphics.plot_predictions(t_ind=t_ind)
         graphics.reset_axes()
         lines = graphics.result_lines.full+graphics.pred_lines.full
         return lines
@@ -503,7 +518,7 @@ def animate(graphics:Graphics,
     if overwrite==False:
         ind = 1
         ext_export_name = export_name
-        while os.path.isfile(export_path+ext_export_name+'.pkl'):
+        while os.path.isfile('{}{}.{}'.format(export_path, ext_export_name, extension)):
             ext_export_name = '{ind:03d}_{name}'.format(ind=ind, name=export_name)
             ind += 1
         export_name = ext_export_name
-- 
2.43.0


From ec75e7cfd199bc48c5f7fa77757b365169f69da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:28 +0000
Subject: [PATCH 23/27] fix: sensitivities after a change of bounds, with
 set_lam_zero, and of problems with one parameter solved by scipy

---
 do_mpc/differentiator/_nlpdifferentiator.py | 44 ++++++++++++++++++---
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 033d427..1da84c1 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -417,13 +417,14 @@ class NLPDifferentiator:
         where_cons_active = np.concatenate((where_g_active,where_x_active+self.n_g))
         where_cons_inactive = np.concatenate((where_g_inactive,where_x_inactive+self.n_g))
 
-        # set lagrange multipliers of inactive constraints to zero
-        if self.settings.set_lam_zero:
-            lam_num[where_cons_inactive] = 0
-        
         # stack primal and dual solution
         x_num = nlp_sol["x"]
         lam_num = ca.vertcat(nlp_sol["lam_g"],nlp_sol["lam_x"])
+
+        # set lagrange multipliers of inactive constraints to zero
+        if self.settings.set_lam_zero:
+            lam_num[where_cons_inactive] = 0
+
         z_num = ca.vertcat(x_num,lam_num)
 
         return z_num, where_cons_active        
@@ -484,6 +485,9 @@ class NLPDifferentiator:
             if lin_solver == 'scipy':
                 logging.info("Solving linear system with Scipy.")
                 param_sens = sp_sparse.linalg.spsolve(A_num.tocsc(),-B_num.tocsc())
+                # a single right-hand side is returned as one-dimensional array
+                if param_sens.ndim == 1:
+                    param_sens = param_sens.reshape(-1,1)
 
             elif lin_solver == 'casadi':
                 logging.info("Solving linear system with Casadi.")
@@ -802,13 +806,42 @@ class DoMPCDifferentiator(NLPDifferentiator):
         nlp = {'x': ca.vertcat(self.optimizer.opt_x), 'f': self.optimizer.nlp_obj, 'g': self.optimizer.nlp_cons, 'p': ca.vertcat(self.optimizer.opt_p)}
 
         # 2 extract bounds
+        nlp_bounds = self._get_do_mpc_nlp_bounds()
+
+        return nlp, nlp_bounds
+
+    def _get_do_mpc_nlp_bounds(self):
+        """
+        Warning:
+            Not part of the public API.
+
+        Reads the current bounds of the underlying NLP of the MPC.
+        """
         nlp_bounds = {}
         nlp_bounds['lbg'] = self.optimizer.nlp_cons_lb
         nlp_bounds['ubg'] = self.optimizer.nlp_cons_ub
         nlp_bounds['lbx'] = ca.vertcat(self.optimizer._lb_opt_x)
         nlp_bounds['ubx'] = ca.vertcat(self.optimizer._ub_opt_x)
 
-        return nlp, nlp_bounds
+        return nlp_bounds
+
+    def _update_nlp_bounds(self):
+        """
+        Warning:
+            Not part of the public API.
+
+        The bounds of the ``do_mpc`` object may have changed since the differentiator was created.
+        """
+        nlp_bounds = self._get_do_mpc_nlp_bounds()
+
+        if self.status.reduced_nlp:
+            self.nlp_bounds_unreduced = nlp_bounds
+            det_opt_x_idx = self.det_sym_idx_dict['opt_x']
+            nlp_bounds = nlp_bounds.copy()
+            nlp_bounds['lbx'] = nlp_bounds['lbx'][det_opt_x_idx]
+            nlp_bounds['ubx'] = nlp_bounds['ubx'][det_opt_x_idx]
+
+        self.nlp_bounds = nlp_bounds
 
     def _get_do_mpc_nlp_sol(self):
         """
@@ -847,6 +880,7 @@ class DoMPCDifferentiator(NLPDifferentiator):
         The current optimal solution and the corresponding parameters are read from the ``do_mpc`` object.  
         """
 
+        self._update_nlp_bounds()
         nlp_sol = self._get_do_mpc_nlp_sol()
         p_num = self._get_p_num()
         dx_dp_num, dlam_dp_num = super().differentiate(nlp_sol, p_num)
-- 
2.43.0


From 30002e9e157b986b9a419aff013f6de8af46fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:51 +0000
Subject: [PATCH 24/27] fix: feedthrough of linear and discretised models,
 steady states of singular systems, dae2odeconversion with vector-valued
 inputs

---
 do_mpc/model/_dae2odeconversion.py |  4 +++-
 do_mpc/model/_linearmodel.py       | 11 ++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index 29e2770..6171b14 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -95,8 +95,10 @@ def dae2odeconversion(model:Model)->Model:
     rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
     z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     
+    u_count = 0
     for j in range(np.size(model.u.keys())-1):
-        daeModel.set_rhs(model.u.keys()[j+1],daeModel.u['q',j])
+        daeModel.set_rhs(model.u.keys()[j+1],q[u_count:u_count+model.u[model.u.keys()[j+1]].size()[0]])
+        u_count += model.u[model.u.keys()[j+1]].size()[0]
     
     z_count = 0
     for k in range(np.size(model.z.keys())-1):
diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index c999827..cd68d76 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -205,7 +205,8 @@ class LinearModel(Model):
         if not isinstance(C, type(None)):
             y_meas = C @ self.x.cat
         if not isinstance(D, type(None)):
-            y_meas = y_meas + D @ self.u.cat
+            # State feedback, if C is not given
+            y_meas = (self.x.cat if y_meas is None else y_meas) + D @ self.u.cat
         if not isinstance(y_meas, type(None)):
             n_y = y_meas.shape[0]
             self.set_meas('y', y_meas)
@@ -275,7 +276,7 @@ class LinearModel(Model):
         self._transfer_variables(self, discreteModel)
 
         # Setup linearized model
-        discreteModel.setup(A,B,C)
+        discreteModel.setup(A,B,C,D)
         
         return discreteModel 
  
@@ -307,13 +308,13 @@ class LinearModel(Model):
         I = np.identity(np.shape(self.sys_A)[0])
         
         #Calculation of steady state
-        if np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) == self.x.shape[0]:
+        if np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) == self.x.shape[0]:
             assert np.all(uss) != None and isinstance(uss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.xss = np.linalg.inv(I-self.sys_A)@self.sys_B@uss
             self.uss = uss
             return self.xss
-        elif np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) != self.x.shape[0]:
-            raise ValueError("State matrix does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
+        elif np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) != self.x.shape[0]:
+            raise ValueError("The matrix I-A does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
         elif np.all(uss) == None and np.shape(self.sys_B)[0] != np.shape(self.sys_B)[1]:
             assert np.all(xss) != None and isinstance(xss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.uss = np.linalg.pinv(self.sys_B)@(I-self.sys_A)@xss
-- 
2.43.0


From 2e0fafe4cb6d21dba11ecc414579fc432b6b01a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:50 +0000
Subject: [PATCH 25/27] fix: ONNX conversion of one-dimensional biases,
 reshaped tensors, Elu with alpha, Gemm without C and attributes in any order

---
 do_mpc/sysid/_onnxconversion.py | 56 ++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 235e748..ab54e06 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -268,6 +268,10 @@ class ONNXConversion:
                 raise Exception("Operation '{}' not implemented. Please consider the limited set of operations available to the tool.".format(n.op_type))
             
 
+            # CasADi returns a float for functions of a numpy array with a single element
+            if isinstance(out, float):
+                out = casadi.DM(out)
+
             all_values[n.output[0]] = out
             node_values[n.output[0]] = out
         
@@ -315,6 +319,15 @@ class ONNXOperations:
     def __init__(self):
         pass
 
+    def _broadcast(self, *args):
+        """ONNX broadcasting: one-dimensional arrays are rows, rows and columns are repeated to obtain the common shape.
+        """
+        if all(isinstance(arg, (np.ndarray, np.generic)) for arg in args):
+            return args
+        args = [np.atleast_2d(arg) if isinstance(arg, (np.ndarray, np.generic)) else arg for arg in args]
+        shape = np.broadcast_shapes(*[arg.shape for arg in args])
+        return [casadi.repmat(arg if not isinstance(arg, np.ndarray) else casadi.DM(arg), shape[0]//arg.shape[0], shape[1]//arg.shape[1]) for arg in args]
+
     def Tanh(self,x, attribute = None):
         return casadi.tanh(x)
 
@@ -326,7 +339,11 @@ class ONNXOperations:
         return casadi.fmax(0,x)
 
     def Elu(self,x, attribute = None):
-        return casadi.fmax(0,x) + casadi.fmin(0,casadi.exp(x)-1)
+        alpha = 1
+        for attr in attribute or []:
+            if attr.name == 'alpha':
+                alpha = attr.f
+        return casadi.fmax(0,x) + casadi.fmin(0,alpha*(casadi.exp(x)-1))
 
     def MatMul(self,*args, attribute = None):
         return casadi.mtimes(*args)
@@ -336,14 +353,16 @@ class ONNXOperations:
         See `ONNX documentation <https://github.com/onnx/onnx/blob/main/docs/Operators.md#add>`_ for more details.
         """
         out = 0
-        for arg in args:
-            out += arg
+        for arg in self._broadcast(*args):
+            out = out + arg
         return out
 
     def Mul(self,*args, attribute = None):
+        args = self._broadcast(*args)
         return args[0]*args[1]
 
     def Sub(self, *args, attribute = None):
+        args = self._broadcast(*args)
         return args[0] - args[1]
 
     def Gemm(self, *args, attribute = None):
@@ -357,7 +376,7 @@ class ONNXOperations:
 
         A = args[0]
         B = args[1]
-        C = args[2]
+        C = args[2] if len(args) > 2 else None
 
         if 'transA' in attr_dict.keys() and attr_dict['transA'] == 1:
             A = casadi.transpose(A)
@@ -372,10 +391,9 @@ class ONNXOperations:
         else:
             beta = 1
 
-        if C.ndim == 1:
-            C = C.reshape(1,-1)
-        
-        res = alpha*self.MatMul(A,B) + beta*C
+        res = alpha*self.MatMul(A,B)
+        if C is not None:
+            res = self.Add(res, beta*C)
 
         return res
 
@@ -383,7 +401,7 @@ class ONNXOperations:
         return  self.Add(*args)
 
     def Concat(self,*args, attribute = None):
-        if attribute[0].i in (0,2):
+        if attribute[0].i in (0,-2,2):
             return casadi.vertcat(*args)
         else:
             return casadi.horzcat(*args)
@@ -398,9 +416,10 @@ class ONNXOperations:
 
     def Slice(self, *args, attribute = None):
         # TODO: Check if this is correct
-        ax = attribute[0].ints
-        ends = attribute[1].ints
-        starts = attribute[2].ints
+        attr_dict = {k.name: k.ints for k in attribute}
+        ends = attr_dict['ends']
+        starts = attr_dict['starts']
+        ax = attr_dict.get('axes', range(len(starts)))
 
         slices = [slice(None,None),]*2
 
@@ -412,8 +431,17 @@ class ONNXOperations:
     def Reshape(self, *args, attribute = None):
         # TODO: Check if this is correct
         data = args[0]
-        shape = args[1]
-        return data.reshape(tuple(shape))
+        shape = [int(n) for n in np.array(args[1]).reshape(-1)]
+        # A zero stands for the size of the input
+        shape = [data.shape[k] if n == 0 else n for k, n in enumerate(shape)]
+        if isinstance(data, np.ndarray):
+            return data.reshape(tuple(shape))
+        if len(shape) == 1:
+            shape = [1] + shape
+        if -1 in shape:
+            shape[shape.index(-1)] = data.numel()//abs(int(np.prod(shape)))
+        # ONNX (row-major) order of the elements
+        return casadi.reshape(data.T, *shape[::-1]).T
 
     def Shape(self, *args, attribute = None):
         return args[0].shape
-- 
2.43.0


From 6f9a7e29a464b078bc8f72a1b3bddf9772856d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:30 +0000
Subject: [PATCH 26/27] fix: repeated, failed and interrupted setups of models,
 simulators, controllers and estimators

---
 do_mpc/controller/_lqr.py    | 16 +++++++------
 do_mpc/controller/_mpc.py    |  1 +
 do_mpc/estimator/_mhe.py     |  4 ++--
 do_mpc/model/_linearmodel.py |  2 ++
 do_mpc/model/_model.py       |  2 ++
 do_mpc/optimizer.py          |  3 +++
 do_mpc/simulator.py          |  1 +
 do_mpc/tools/__init__.py     |  1 +
 do_mpc/tools/_atomicsetup.py | 45 ++++++++++++++++++++++++++++++++++++
 9 files changed, 66 insertions(+), 9 deletions(-)
 create mode 100644 do_mpc/tools/_atomicsetup.py

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 0069a97..4e1c2c8 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -475,6 +475,7 @@ class LQR(IteratedVariables):
         else:
             self.xss, self.uss = np.array(xss_new), np.array(uss_new)
     
+    @do_mpc.tools.atomic_setup
     def setup(self)->None:
         """Prepares :py:class:`LQR` for execution.
         This method initializes and ensures that all the parameters that are necessary to desgin the lqr are available.
@@ -488,13 +489,14 @@ class LQR(IteratedVariables):
         if self.mode in ['standard',None]:
             self.K = self.discrete_gain(self.model._A,self.model._B)
         elif self.mode == 'inputRatePenalization':
-            #Modifying Q and R matrix for input rate penalization
-            zeros_Q = np.zeros((np.shape(self.Q)[0],np.shape(self.R)[1]))
-            zeros_Ru = np.zeros((np.shape(self.R)[0],np.shape(self.Q)[1]))
-            self.Q = np.block([[self.Q,zeros_Q],[zeros_Ru,self.R]])            
-            if self.settings.n_horizon != None:
-                self.P = np.block([[self.P,zeros_Q],[zeros_Ru,self.R]])
-            self.R = self.delR
+            #Modifying Q and R matrix for input rate penalization (unless this was done by a previous setup)
+            if self.flags['setup'] == False:
+                zeros_Q = np.zeros((np.shape(self.Q)[0],np.shape(self.R)[1]))
+                zeros_Ru = np.zeros((np.shape(self.R)[0],np.shape(self.Q)[1]))
+                self.Q = np.block([[self.Q,zeros_Q],[zeros_Ru,self.R]])            
+                if self.settings.n_horizon != None:
+                    self.P = np.block([[self.P,zeros_Q],[zeros_Ru,self.R]])
+                self.R = self.delR
             
             if hasattr(self, "A_rated") and hasattr(self, "B_rated"):
                 self.K = self.discrete_gain(self.A_rated,self.B_rated)
diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 9435d87..bec83fa 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -928,6 +928,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
             def p_fun(t): return _p
             self.set_p_fun(p_fun)
 
+    @do_mpc.tools.atomic_setup
     def setup(self)->None:
         """Setup the MPC class.
         Internally, this method will create the MPC optimization problem under consideration
diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 4586795..3daa706 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -838,9 +838,8 @@ class MHE(Optimizer, Estimator):
 
         if self.flags['set_y_fun'] == False and self.settings.meas_from_data:
             # Case that measurement function is automatically created.
-            y_template = self.get_y_template()
-
             def y_fun(t_now):
+                y_template = self.get_y_template()
                 n_steps = min(self.data._y.shape[0], self.settings.n_horizon)
                 for k in range(-n_steps,0):
                     y_template['y_meas',k] = self.data._y[k]
@@ -879,6 +878,7 @@ class MHE(Optimizer, Estimator):
 
         self.flags['set_initial_guess'] = True
 
+    @do_mpc.tools.atomic_setup
     def setup(self)->None:
         """The setup method finalizes the MHE creation.
         The optimization problem is created based on the configuration of the module.
diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index cd68d76..4836614 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -26,6 +26,7 @@ import pdb
 import warnings
 from scipy.signal import cont2discrete
 from . import Model
+from do_mpc.tools import atomic_setup
 from typing import Union
 import casadi.tools as castools
 
@@ -168,6 +169,7 @@ class LinearModel(Model):
         """
         raise NotImplementedError('Algebraic variables are not supported for linear models.')
         
+    @atomic_setup
     def setup(self,A:np.ndarray=None, B:np.ndarray=None,C:np.ndarray=None,D:np.ndarray=None)->None:
         """Setup method must be called to finalize the modelling process.
         All required model variables must be declared.
diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index 91dc565..55f1a46 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -26,6 +26,7 @@ import numpy as np
 import casadi.tools as castools
 import pdb
 from do_mpc.tools._casstructure import _SymVar
+from do_mpc.tools import atomic_setup
 from typing import Union,Tuple
 
 class Model:
@@ -918,6 +919,7 @@ class Model:
                 var.__dict__['this'] = sym_struct[name].__dict__['this']
 
 
+    @atomic_setup
     def setup(self)->None:
         """Setup method must be called to finalize the modelling process.
         All required model variables must be declared.
diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 3b058da..3f4b4f1 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -567,6 +567,7 @@ class Optimizer:
         self._eps_ub = _eps(np.inf)
 
         # Set bounds, add slack variable to constraint and add cost.
+        self.slack_cost = 0
         for slack_i in self.slack_vars_list:
             self._eps_ub[slack_i['slack_name']] = slack_i['ub']
             self._nl_cons[slack_i['slack_name']] -= self._eps[slack_i['slack_name']]
@@ -1052,6 +1053,7 @@ class Optimizer:
         }
         return n_branches, n_scenarios, child_scenario, parent_scenario, branch_offset
 
+    @do_mpc.tools.atomic_setup
     def prepare_nlp(self)->None:
         """Prepare the optimization problem.
         Typically, this method is called internally from :py:meth:`setup`.
@@ -1075,6 +1077,7 @@ class Optimizer:
         # MPC and MHE have similar methods. The documentation is valid for both of them.
         self._prepare_nlp()
 
+    @do_mpc.tools.atomic_setup
     def create_nlp(self)->None:
         """Create the optimization problem.
         Typically, this method is called internally from :py:meth:`setup`.
diff --git a/do_mpc/simulator.py b/do_mpc/simulator.py
index f211e29..102fbfc 100644
--- a/do_mpc/simulator.py
+++ b/do_mpc/simulator.py
@@ -225,6 +225,7 @@ class Simulator(do_mpc.model.IteratedVariables):
         self._settings.check_for_mandatory_settings()
 
 
+    @do_mpc.tools.atomic_setup
     def setup(self)->None:
         """Sets up the simulator and finalizes the simulator configuration.
         Only after the setup, the :py:func:`make_step` method becomes available.
diff --git a/do_mpc/tools/__init__.py b/do_mpc/tools/__init__.py
index 547c911..2091cf2 100644
--- a/do_mpc/tools/__init__.py
+++ b/do_mpc/tools/__init__.py
@@ -36,6 +36,7 @@ from ._structure import Structure
 from ._casstructure import *
 from ._timer import Timer
 from ._atomicstep import atomic_step
+from ._atomicsetup import atomic_setup
 
 
 @contextmanager
diff --git a/do_mpc/tools/_atomicsetup.py b/do_mpc/tools/_atomicsetup.py
new file mode 100644
index 0000000..3882f8f
--- /dev/null
+++ b/do_mpc/tools/_atomicsetup.py
@@ -0,0 +1,45 @@
+from functools import wraps
+
+import casadi as cas
+
+
+def _content(val):
+    if isinstance(val, list):
+        return [(v, _content(v)) for v in val]
+    if isinstance(val, dict):
+        return {key: (v, _content(v)) for key, v in val.items()}
+    if isinstance(val, (cas.SX, cas.MX)):
+        # Model.setup redirects exported variables to other symbols.
+        return val.__dict__['this']
+    return None
+
+
+def _restore(val, content):
+    if isinstance(val, list):
+        val[:] = [v for v, _ in content]
+        for v, c in content:
+            _restore(v, c)
+    elif isinstance(val, dict):
+        val.clear()
+        for key, (v, c) in content.items():
+            val[key] = v
+            _restore(v, c)
+    elif isinstance(val, (cas.SX, cas.MX)):
+        val.__dict__['this'] = content
+
+
+def atomic_setup(setup):
+    """Decorator for ``setup`` (and its parts): if the setup fails (e.g. because the configuration is incomplete or inconsistent,
+    or because it is interrupted), the object is as it was before the call. The configuration can be corrected and the setup repeated.
+    """
+    @wraps(setup)
+    def wrapper(self, *args, **kwargs):
+        objs = [obj for obj in (self, self.__dict__.get('data')) if obj is not None]
+        saved = [(obj.__dict__, _content(obj.__dict__)) for obj in objs]
+        try:
+            return setup(self, *args, **kwargs)
+        except BaseException:
+            for attr, content in saved:
+                _restore(attr, content)
+            raise
+    return wrapper
-- 
2.43.0


From 00d2902ec2035cd303c23f76497839cde9bf04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:34 +0000
Subject: [PATCH 27/27] fix: dae2odeconversion assigns the process noise by
 name

The process noise variables are in the order of the set_rhs calls. When the
right-hand sides are given in another order than the states, the algebraic
states of the converted model reacted to the noise of another state.
---
 do_mpc/model/_dae2odeconversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index 6171b14..02d9ed5 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -92,7 +92,9 @@ def dae2odeconversion(model:Model)->Model:
             daeModel.set_rhs(model.x.keys()[i],rhs_new[x_count:x_count+model.x[model.x.keys()[i]].size()[0]])
             x_count += model.x[model.x.keys()[i]].size()[0]
     alg = model._alg_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.vertcat(*tvp_new),castools.vertcat(*p_new),daeModel.w)
-    rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
+    # The process noise of the new model is in the order of its states, which may differ from the original order
+    w_new = daeModel.w[model.w.keys()]
+    rhs_mod = castools.substitute(rhs,model.w.cat,castools.vertcat(*w_new).reshape((model.n_w,1)))
     z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     
     u_count = 0
-- 
2.43.0

