#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing; the jsonl is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(obs), hook_needed=hook)))

OB='do_mpc/opcua/_base.py'; OC='do_mpc/opcua/_client.py'; OS_='do_mpc/opcua/_server.py'; OH='do_mpc/opcua/_helper.py'
SIM='do_mpc/simulator.py'; MPC='do_mpc/controller/_mpc.py'; MHE='do_mpc/estimator/_mhe.py'; LQR='do_mpc/controller/_lqr.py'
DATA='do_mpc/data.py'; OPT='do_mpc/optimizer.py'; SAM='do_mpc/sampling/_sampler.py'; DH='do_mpc/sampling/_datahandler.py'
PL='do_mpc/sampling/_samplingplanner.py'; TL='do_mpc/tools/__init__.py'; IP='do_mpc/tools/_indexedproperty.py'; IV='do_mpc/model/_iteratedvariables.py'
TM='do_mpc/tools/_timer.py'

# ----------------------------------------------------------------- real time (OPC UA)
prop('R01','Real-time control cycles of one RTBase never overlap',
 "For one RTBase, at most one execution of make_step of the wrapped do-mpc object is in progress at any instant, however long a cycle takes, however late timers and threads run, and however starts, stops, direct make_step calls and automatic cycles are interleaved.",
 ['schedules','fault_sequences','histories'],
 'Every interleaving of timer threads, user threads calling start/stop/make_step, slow or stalled cycles (longer than the cycle time) and failing cycles.',
 'No test touches the opcua package; an overlap needs a cycle that outlasts its period or a particular thread interleaving.',
 [OB],[('RTBase.make_step / async_run / async_step_start','do_mpc/opcua/_base.py')],
 [('do_mpc_object','the wrapped, not thread-safe MPC/Simulator/LQR/estimator','RTBase.do_mpc_object')],
 ['entry and exit of the wrapped make_step'])
prop('R02','After async_step_stop returns no further cycle begins until a restart',
 "Once async_step_stop has returned, no further automatic cycle begins to read its input tags, call make_step or write outputs, until async_step_start is called again; a cycle already in progress may finish. A later async_step_start always starts cycling again.",
 ['schedules','histories','fault_sequences'],
 'Every history of starts and stops, and every instant at which the stop lands relative to a firing timer, a running cycle or a concurrent start.',
 'A stop only races with a timer that fires in the same instant; no test starts the real-time loop at all.',
 [OB],[('RTBase.async_step_stop','do_mpc/opcua/_base.py'),('RTBase.async_run','do_mpc/opcua/_base.py')],
 [('thread','pending timer','RTBase.thread'),('is_running','a timer is armed','RTBase.is_running')],
 ['OPC UA reads/writes and wrapped make_step calls after the return of async_step_stop'])
prop('R03','A started RTBase cycles once per cycle time, and keeps doing so after faults',
 "While started, an RTBase begins its first cycle at once and then one cycle per cycle time (t_step times the client's time unit): never at a multiple of that rate, however often or concurrently it was started or restarted, and never ceasing: failing cycles, lost connections, slow cycles and jumps of the wall clock may cost the cycles they hit but once they end cycling continues at the normal rate.",
 ['schedules','histories','fault_sequences'],
 'Every history of starts, restarts, failing or overrunning cycles, connection losses and wall-clock jumps, over every thread interleaving.',
 'Needs many periods of (virtual) time, double starts, clock steps and failing cycles; no test runs the loop.',
 [OB],[('RTBase.async_step_start','do_mpc/opcua/_base.py'),('RTBase.async_run','do_mpc/opcua/_base.py')],
 [('cycle_time','period in seconds','RTBase.cycle_time')],['times at which cycles begin'])
prop('R04','Each real-time cycle maps the read tags through make_step to the write tags',
 "In every cycle the wrapped make_step gets exactly the values that this cycle read from the configured read tags, in order, as a column, and element i of its result is what this cycle writes to the i-th write tag, and to no other tag. If a read or make_step fails, the cycle writes nothing and is never run on missing or stale data; a failing operation never corrupts later cycles, which work again once the server is reachable and the client connected.",
 ['schedules','fault_sequences','histories'],
 'Every sequence of connection losses, refused or failing reads and writes, server restarts and reconnects, several clients sharing tags, all interleavings.',
 'No test runs a client or a server; partial failures in the middle of a cycle cannot be produced by a sample of happy runs.',
 [OB,OC],[('RTBase.make_step/read_from_tags/write_to_tags','do_mpc/opcua/_base.py'),('RTClient.readData/writeData','do_mpc/opcua/_client.py')],
 [('tagin/tagout','configured node ids','RTBase')],['server-side value changes, arguments and results of make_step'])
prop('R05','Namespaces of registered clients are complete, disjoint and stable',
 "After a client's namespace has been registered on an RTServer, each model variable of that client has exactly one server variable reachable, readable and writable under the node ids that the client's namespace reports for that variable type, in model order. Different clients never share a node, and registering the same client again (on the restarted or on another server) yields usable node ids of the same form rather than corrupting the client's namespace.",
 ['histories','configurations','fault_sequences'],
 'Every model layout, number and order of clients, and every history of registrations, server crashes and restarts.',
 'No test registers a namespace; re-registration after a server loss needs a multi-step history.',
 [OS_,OH,OB],[('RTServer.namespace_from_client/add_variable_to_node','do_mpc/opcua/_server.py'),('Namespace.__getitem__','do_mpc/opcua/_helper.py')],
 [('entry_list','draft of the node ids','Namespace')],['server address space, node ids returned by the client namespace'])

# ----------------------------------------------------------------- sampling / storage
prop('S01','Sampling survives crashes: a completed campaign has every sample, none corrupt',
 "Whatever crashes, write errors, full disks, failing sample functions and concurrent workers occurred before, once a Sampler run over the plan returns normally every case of the plan has its sample file, and each loads to exactly the value of the sample function for that case. In particular an interrupted or failed write never counts as a finished sample, on whichever save format, and cases finished before are not recomputed when overwriting is off; a Sampler run (also of a Sampler used before, for another campaign too) in which nothing fails returns normally.",
 ['crash_points','fault_sequences','schedules','histories'],
 'Every crash point and I/O fault in any worker, any number of restarts and of workers sharing the directory, every interleaving, both save formats.',
 'The test runs one sampler once on a healthy disk without a crash.',
 [SAM,TL,DH],[('Sampler.sample_idx/_save','do_mpc/sampling/_sampler.py'),('save_pickle','do_mpc/tools/__init__.py')],
 [('sample files','durable state of the campaign','Sampler.data_dir')],['files under data_dir, values loaded from them'])
prop('S02','A stored sample or plan is never damaged by a later run',
 "With overwriting off, a sampler or planner never changes or removes a file that was complete when its call began. With overwriting on, a crash, write error, full disk or failing sample function leaves under each final name either the complete previous content or the complete new content, and no operation on one name touches files of another name, directory or campaign.",
 ['crash_points','fault_sequences','histories'],
 'Every crash point and I/O error within a re-run, every overwrite setting, sample name and directory name.',
 'Tests never run a second campaign over existing files nor inject a failure into one.',
 [SAM,PL,TL],[('Sampler._save','do_mpc/sampling/_sampler.py'),('SamplingPlanner.export','do_mpc/sampling/_samplingplanner.py'),('save_pickle','do_mpc/tools/__init__.py')],
 [],['bytes of every file before and after each operation and crash'])
prop('S03','DataHandler returns each case with its own result, also while sampling goes on',
 "Every query by index, slice or filter returns, for each selected case of the plan, the case definition together with the stored result of that same case (through the post-processing functions currently set), independent of query order, repetition and concurrent queries. A case is reported as missing (None) exactly while its sample has not been completed: later queries see samples generated in the meantime (a sample loaded before may be served from memory), and a failed query leaves later ones correct.",
 ['histories','schedules','fault_sequences'],
 'Every history of queries interleaved with a campaign in progress, read errors, several handlers and threads, both formats.',
 'The test queries one handler after all samples exist.',
 [DH],[('DataHandler._lazy_loading/_load','do_mpc/sampling/_datahandler.py'),('DataHandler.filter/__getitem__','do_mpc/sampling/_datahandler.py')],
 [('pre_loaded_data','cache of loaded results','DataHandler.pre_loaded_data')],['returned records'])
prop('S04','Sampling plans have unique ids, exact cases, and exports that lose nothing',
 "After any history of adding, generating and combining cases, some of which fail half-way, every case in the plan has its own id, holds exactly the values given or generated for it, and a product adds every combination once; a failed call leaves no incomplete case behind. An export that returns has stored a plan that loads equal to the current one, and with overwriting off earlier exports remain retrievable, also when several processes export concurrently or one crashes.",
 ['histories','fault_sequences','crash_points','schedules'],
 'Every history of planner calls with failing value generators and invalid arguments, crash points and I/O faults during export, and concurrent exporters.',
 'The test adds a handful of valid cases and exports once.',
 [PL,TL],[('SamplingPlanner.add_sampling_case/product/export','do_mpc/sampling/_samplingplanner.py')],
 [('sampling_plan','list of cases','SamplingPlanner.sampling_plan')],['plan entries, exported files'])
prop('S05','save_results never loses or tears stored results',
 "Each save_results call that returns has stored, under a result name, data objects that load_results returns with the same content as the live ones at the time of the call. With overwriting off no call ever changes an existing result file, also with several savers at once; and after a crash or I/O error at any point each final result name holds a complete old or new result, never a torn one.",
 ['crash_points','fault_sequences','schedules','histories'],
 'Every crash point and I/O error within a save, every history of saves and names, several savers interleaved, simulator/estimator/controller data alike.',
 'Tests save once to a fresh name and do not crash.',
 [DATA],[('save_results','do_mpc/data.py')],[('result files','durable results','result_path')],['files under result_path, load_results'])

# ----------------------------------------------------------------- closed loop
prop('C01','The simulator reproduces the model trajectory through any history',
 "After any history of steps (with inputs, process and measurement noise, parameters and time-varying parameters evaluated at the simulator's time), failed steps, resets and changes of the state, the simulator's state, time and returned measurement equal those of the model equations evolved over the successful steps, within integration tolerance.",
 ['histories','fault_sequences','configurations'],
 'Every discrete, continuous or DAE model, every history of steps, rejected calls, failing user functions, failing integrators, resets and state changes.',
 'Tests replay one recorded trajectory per example; they contain no failing step, no reset, no noise channels and no state change.',
 [SIM,IV],[('Simulator.make_step/simulate','do_mpc/simulator.py'),('IteratedVariables setters','do_mpc/model/_iteratedvariables.py')],
 [('_x0/_z0/_u0/_t0','current iterate','IteratedVariables')],['make_step return value, x0, t0, data'])
prop('C02','MPC plans start at the state, obey model and bounds, and are what is applied',
 "Whenever an MPC step reports success, its stored plan starts at the given state, satisfies the model in every scenario with the parameters and time-varying parameters of that time, respects all state, input, terminal and nonlinear constraints in force at that moment (softened ones up to their slack), shares inputs between scenarios until they may branch, its auxiliary expressions are those of the model at the planned states, inputs, algebraic states and parameters of each stage and scenario, and the returned input is the plan's first input.",
 ['histories','configurations','fault_sequences'],
 'Every closed-loop history (failed steps, bound changes, re-initialisation, retries), every configuration of horizon, robust horizon, scaling, collocation or discrete time.',
 'Tests compare one recorded trajectory per example in one configuration with constant bounds.',
 [MPC,OPT],[('MPC.make_step','do_mpc/controller/_mpc.py'),('Optimizer.solve','do_mpc/optimizer.py')],
 [('opt_x_num','last plan','MPC.opt_x_num')],['returned u0, opt_x_num, lb/ub in force'])
prop('C03','MPC decisions equal the optimum of the current problem, whatever happened before',
 "In any closed-loop history the input returned by a successful MPC step is the optimal first input of the configured problem (costs, rate penalty relative to the last returned input, set-point changes, scenarios, bounds) for the state, time and parameters of that step; failed solves, rejected calls and earlier steps influence it only through the last returned input. Once solver faults cease the next step succeeds again with that optimal input.",
 ['histories','fault_sequences','configurations'],
 'Every history of solver failures, rejected calls, disturbances and parameter changes for convex problems with a unique optimum.',
 'Tests replay a recorded fault-free trajectory.',
 [MPC,OPT],[('MPC.make_step','do_mpc/controller/_mpc.py'),('Optimizer.solve warm start','do_mpc/optimizer.py')],
 [('opt_x_num / lam_g_num','warm start','Optimizer'),('_u0','last input','MPC')],['returned u0 against an independent reference optimisation'])
prop('C04','MHE estimates from exactly the last measurements of its window',
 "At every step of any history the MHE solves its estimation problem over exactly the last N accepted measurements (oldest first; the earliest ones repeated while fewer exist), with inputs, parameters and time-varying parameters of the matching instants and the previous estimate as prior, and returns the state estimate of that problem's optimum, with the auxiliary expressions that belong to it. Failed steps and rejected measurements leave no trace in the window, and noise-free data consistent with the prior return the true state.",
 ['histories','fault_sequences','configurations'],
 'Every history of measurements, failing user functions, failing solves, resets and horizon lengths.',
 'One test replays one recorded MHE trajectory without failures.',
 [MHE,OPT],[('MHE.make_step','do_mpc/estimator/_mhe.py'),('default y_fun','do_mpc/estimator/_mhe.py')],
 [('data._y','measurement history','MHE.data')],['returned x0, opt_p_num, against an independent reference optimisation'])
prop('C05','A failed step can be retried as if it had never been attempted',
 "If make_step of a Simulator, MPC, MHE, LQR or StateFeedback raises (rejected argument, raising user function, raising solver or integrator, interrupt), then state, time, stored records and everything later observable through the public interface are as if that call had not been made, apart from solver warm starts: repeating the step gives the result the failed one would have given.",
 ['fault_sequences','crash_points','histories'],
 'Every point at which a step can be interrupted by a user callback, solver, integrator or rejected argument, in every class, at every position of a history.',
 'No test makes a step fail.',
 [SIM,MPC,MHE,LQR,DATA],[('make_step order of effects','do_mpc/simulator.py, controller, estimator')],
 [('_x0,_u0,_z0,_t0,data','iterates and records','all iterated classes')],['twin run without the failed call'])
prop('C06','Recorded data stay aligned: one row per successful step, holding its values',
 "In every history each data container holds, for every recorded field, exactly one row per successful step since the last reset, in order; row i holds the state, algebraic state, input, auxiliary expressions, parameters, time-varying parameters and time of step i (time = start plus i times t_step), and queries and exports return those values.",
 ['histories','fault_sequences'],
 'Every history of successful, rejected and failing steps, resets and state changes in every class.',
 'Tests compare data of a clean run only, where misalignment cannot arise.',
 [DATA,SIM,MPC,MHE,LQR],[('Data.update','do_mpc/data.py'),('make_step','all iterated classes')],
 [('data._x ...','records','Data')],['data[...] and data.export() against the driver\'s own log'])
prop('C07','Instances do not influence each other',
 "Any number of Models, Simulators, MPCs, MHEs and LQRs in one process, created, configured and stepped in any order or from different threads, behave exactly as each would alone: bounds, scaling, initial guesses, settings, parameters, results and data of one never appear in another.",
 ['schedules','histories','configurations'],
 'Every interleaving (down to single statements) of configuration and steps of two or more instances.',
 'Tests configure one controller at a time in one thread.',
 [IP,OPT,MPC,MHE,SIM],[('IndexedProperty','do_mpc/tools/_indexedproperty.py'),('settings objects','controller/estimator/simulator')],
 [('IndexedProperty.obj','instance bound to the shared descriptor','do_mpc/tools/_indexedproperty.py')],['each instance against a solo run'])
prop('C08','Time and time-varying data are those of the step and stage they belong to',
 "In every history, step k of a Simulator, MPC, MHE or LQR happens at its start time plus k times t_step; user functions for parameters, time-varying parameters and measurements are called with that time, and the values they return for stage j of the horizon are those used in stage j of that step's problem, also when they vary from call to call or a previous call failed.",
 ['histories','fault_sequences','configurations'],
 'Every time-varying sequence, horizon, start time, failing or retried call and reset.',
 'Examples use constant or rarely changing tvp and start at time zero; no step fails.',
 [MPC,MHE,SIM],[('tvp_fun/p_fun evaluation in make_step','do_mpc/controller/_mpc.py, do_mpc/estimator/_mhe.py, do_mpc/simulator.py')],
 [('_t0','current time','IteratedVariables')],['arguments of the callbacks, opt_p_num, data'])
prop('C09','Restart and reset: continuing equals never having stopped, reset equals fresh',
 "A loop that is killed at any point between or inside steps and rebuilt from the state, input, algebraic state and time of the last completed step continues with the same states, inputs and records as an uninterrupted one. reset_history returns an object to an empty record, time zero and first-step behaviour, so that the run after a reset with the same initial values equals the run of a fresh object.",
 ['crash_points','histories'],
 'Every crash point in a closed loop, every number of restarts, every history before a reset.',
 'Tests run each loop once from the beginning.',
 [SIM,MPC,MHE,LQR,IV,'do_mpc/model/_model.py'],[('IteratedVariables setters, set_initial_guess, reset_history','do_mpc/model/_iteratedvariables.py, do_mpc/optimizer.py')],
 [('x0,u0,z0,p_est0,t0','snapshot','IteratedVariables')],['trajectories of the restarted and the uninterrupted run'])
prop('C10','LQR returns the optimal feedback for its current set-points in any history',
 "At every step of any history the LQR returns u = K (x - xss) + uss (or, penalising input rates, the previous input plus K times the deviation) for the set-points currently configured and the gain that solves its discrete Riccati problem; changing set-points any number of times takes effect from the next step, and failing or rejected calls change nothing.",
 ['histories','fault_sequences','configurations'],
 'Every history of steps, set-point changes, rejected calls, resets in both modes, finite and infinite horizon.',
 'Tests replay one trajectory per mode and set the set-point at most once.',
 [LQR],[('LQR.make_step/set_setpoint/discrete_gain','do_mpc/controller/_lqr.py')],
 [('xss,uss,K,u0','set-point, gain, last input','LQR')],['returned u against an independent Riccati solution'])
prop('C11','A failed or unfinished solve is always visible and never recorded as success',
 "For every optimiser step, the stored success flag and solver statistics are those the solver reported for this very step, and a step whose solver raised is not recorded at all; a step is never marked successful because an earlier one was.",
 ['fault_sequences','histories'],
 'Every sequence of solver outcomes (success, iteration limit, infeasible, exception) in MPC and MHE.',
 'In all tests every solve succeeds.',
 [OPT,MPC,MHE,DATA],[('Optimizer.solve, solver_stats, data.update','do_mpc/optimizer.py')],
 [('solver_stats','statistics of the last solve','Optimizer')],['data success, t_wall_total, solver return status'])
prop('C12','Changed bounds apply from the next step, as set, only there',
 "Bounds of every kind offered (states, inputs, algebraic states, terminal, estimated parameters) that are changed between steps are read back as set, apply in full to every later step (all stages and scenarios) until changed again, and never to anything else; a rejected change has no effect.",
 ['histories','configurations','fault_sequences'],
 'Every history of bound changes interleaved with (failing) steps, any scaling and horizon.',
 'No test changes a bound after setup.',
 [MPC,MHE,OPT],[('bounds/terminal_bounds setters, _update_bounds','do_mpc/controller/_mpc.py, do_mpc/optimizer.py')],
 [('_x_lb.._u_ub, lb_opt_x','bounds','Optimizer')],['plans and read-back values'])
prop('C13','Results queried while the loop runs are always those of the queried variable',
 "Concurrent readers (e.g. live plots) of data containers and predictions always receive the columns of the variable they asked for, for a prefix of the recorded steps (the step in progress may already show), and never a mixture with another variable, another solution or a torn step; concurrent queries never make the control loop or each other fail.",
 ['schedules','histories'],
 'Every statement-level interleaving of several readers with a stepping loop.',
 'No test queries results concurrently with a running loop.',
 [DATA],[('Data.__getitem__ query cache','do_mpc/data.py'),('MPCData.prediction cache','do_mpc/data.py')],
 [('result_queries/prediction_queries','index caches','Data, MPCData')],['query results against the single-threaded value'])
prop('C14','A compiled solver is used only if its compilation completed for this problem',
 "compile_nlp leads to solving with the compiled problem only after the code generation and the compiler finished successfully for the current problem; a failing, interrupted or crashed compilation is reported to the caller and leaves the controller's previous solver working, and no left-over file of an interrupted compilation is ever used as the solver; overwrite=False reuses a library only if its compilation had completed.",
 ['crash_points','fault_sequences','histories'],
 'Every compiler outcome (success, error exit, kill, full disk, interrupt) and every left-over from an earlier attempt.',
 'No test calls compile_nlp.',
 [OPT],[('Optimizer.compile_nlp','do_mpc/optimizer.py')],
 [('nlp.c / nlp.so','compiled artefact','working directory')],['controller results after compile_nlp'])
prop('C15','Results depend only on inputs: not on clocks, hashing, threads or random state',
 "The trajectories, plans, estimates and records of a loop (other than measured run times) are identical for every wall-clock setting or jump, hash seed, working directory, global random state and thread placement; measured durations are never negative and do not follow jumps of the wall clock.",
 ['schedules','histories','configurations'],
 'Every clock jump, hash seed, random state and thread placement during a loop.',
 'Tests run once in one environment.',
 [TM,OPT,SIM,MPC,MHE],[('Timer.tic/toc','do_mpc/tools/_timer.py')],
 [('t_start','start of a measurement','Timer')],['results of twin runs, Timer.t_list'])
MD='do_mpc/model/_model.py'; LM='do_mpc/model/_linearmodel.py'; LZ='do_mpc/model/_linearize.py'; DO='do_mpc/model/_dae2odeconversion.py'
GR='do_mpc/graphics.py'; ND='do_mpc/differentiator/_nlpdifferentiator.py'
prop('C16','A model handed on by pickle, copy or file is the same model',
 "A set-up model with SX variables that is pickled and loaded, deep-copied, saved and loaded from a file or sent to another process, any number of times and with every pickle protocol, has the same variables, names, expressions and functions as the original and gives the same results in simulators, controllers and estimators; the original is not changed by it, not even if pickling is interrupted or takes place while another thread makes steps with it. Models that cannot be pickled (MX, not set up) raise an error and stay usable.",
 ['histories','schedules','crash_points','programs'],
 'Every model layout, chain of hand-overs, interrupt point and interleaving with steps that use the model.',
 'One test pickles one model once; nothing hands models on repeatedly, between processes, concurrently with steps or with interrupts.',
 [MD,IV],[('Model.__getstate__ / __setstate__','do_mpc/model/_model.py')],
 [('__dict__','serialised expressions and structures','Model')],['variables, functions and closed-loop results of the loaded model'])
prop('C17','Plots show the stored data, also while results are being recorded',
 "Whatever lines were added to a Graphics object and whenever it plots - between steps, after failed or interrupted steps, while another thread makes a step, with t_ind or up to now, for predictions and for several Data objects - every line holds exactly the values of its variable from the completed steps at the recorded times (predictions: those stored for that step, on the prediction time grid; inputs as steps from their time on), or an error is raised; plotting neither changes the data nor the loop, and clear removes only what it drew.",
 ['histories','schedules','configurations'],
 'Every configuration of lines, every number and size of variables, every interleaving of plotting with steps and every failure in between.',
 'Graphics is not tested at all.',
 [GR,DATA],[('Graphics.add_line / plot_results / plot_predictions / clear','do_mpc/graphics.py')],
 [('result_lines, pred_lines','line objects by variable','Graphics')],['data of the matplotlib lines'])
prop('C18','Computed sensitivities belong to the last solution and its current problem',
 "Over every history of steps, failed and unsuccessful steps, changes of bounds, resets and interrupted differentiations, DoMPCDifferentiator (with any settings and any number of instances) and NLPDifferentiator return the derivative of the optimal solution and multipliers with respect to the parameters of the problem that was solved last, wherever it is regular (LICQ, strict complementarity, regular KKT matrix), report in status whether LICQ, strict complementarity and full rank hold, and never change the controller or estimator or its later results.",
 ['histories','fault_sequences','programs','configurations'],
 'Every MPC and MHE problem, setting of the differentiator and history of steps, faults and bound changes.',
 'Tests compare the sensitivities of two fixed problems directly after one solve.',
 [ND,'do_mpc/differentiator/helper.py'],[('NLPDifferentiator.differentiate','do_mpc/differentiator/_nlpdifferentiator.py'),('DoMPCDifferentiator.differentiate','do_mpc/differentiator/_nlpdifferentiator.py')],
 [('opt_x_num_unscaled, lam_g_num, lam_x_num, opt_p_num','last solution','MPC, MHE')],['returned matrices, status, sens_num'])
prop('C19','Linearised, discretised and converted models behave like the original',
 "linearize, LinearModel (set up with any combination of matrices), discretize (every method), get_steady_state and dae2odeconversion return, at every set-point and for every model, systems with the names of the original whose matrices, simulated trajectories, measurements, LQR feedback and steady states are those of the (to first order, for linear models exactly) original; repeated or interrupted derivation, also while another thread makes steps with the original, gives the same and changes neither the original nor loops that use it.",
 ['histories','schedules','crash_points','programs'],
 'Every model, set-point, discretisation and interleaving or interruption of deriving models with steps of them and of the original.',
 'Two examples with one model each run LQR on a linearised or converted model.',
 [LZ,LM,DO,MD],[('linearize','do_mpc/model/_linearize.py'),('LinearModel.setup / discretize / get_steady_state','do_mpc/model/_linearmodel.py'),('dae2odeconversion','do_mpc/model/_dae2odeconversion.py')],
 [('sys_A, sys_B, sys_C, sys_D','system matrices','LinearModel')],['matrices, trajectories and inputs with the derived models'])
prop('C20','Converted networks compute what the ONNX network computes, after any history',
 "Over every history of conversions - with numbers or symbols, rejected, interrupted, of graphs with unsupported operators, of several networks and in several threads - each layer of an ONNXConversion queried by name is the value (or expression) that the ONNX network has for the inputs of that converter's last completed conversion; unsupported operators and wrong inputs raise an error and change nothing; a simulated model that contains a converted network follows the network, whatever is converted or fails afterwards.",
 ['histories','schedules','crash_points','programs'],
 'Every graph of supported operators, input type, history of conversions, interrupt point and interleaving with other conversions and steps.',
 'The only test of the module is empty.',
 ['do_mpc/sysid/_onnxconversion.py'],[('ONNXConversion.convert','do_mpc/sysid/_onnxconversion.py'),('ONNXOperations','do_mpc/sysid/_onnxconversion.py')],
 [('node_values','expressions of all layers','ONNXConversion')],['values of all layers, trajectories of models with a network'])
prop('C21','Failed, interrupted and repeated setups end in the configured object',
 "A setup of a model, simulator, MPC, MHE or LQR that is refused (incomplete or inconsistent configuration) or interrupted at any point raises and leaves the object as it was - not set up, or set up as before and able to go on in the middle of a loop; after correcting the configuration the next setup gives exactly the object that a single plain setup gives, and so does a repeated setup, one after a change of settings and one done as prepare_nlp and create_nlp. Terms and constraints added between the two are part of the problem that is solved, once.",
 ['histories','crash_points','programs','configurations'],
 'Every configuration, sequence of refused, interrupted, repeated and split setups, interrupt point and moment of a running loop.',
 'Tests set every object up exactly once, with a complete configuration.',
 [MPC,MHE,SIM,OPT,MD,LQR],[('setup','do_mpc/controller/_mpc.py'),('prepare_nlp / create_nlp','do_mpc/optimizer.py'),('Model.setup','do_mpc/model/_model.py')],
 [('flags, nlp_obj, nlp_cons, slack_cost, y_fun','configuration and problem','MPC, MHE'),('_x, _y_expression, rhs_list','declared model','Model')],['results and records of the steps after the setup'])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+'\n')
print(len(P))
