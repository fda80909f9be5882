RTN = ('seeded search over thread schedules (statement-level pre-emption), virtual time and faults; real RTBase/RTClient/RTServer and stdlib Timer/Thread logic, '
       'simulated locks, clock and OPC UA transport; a pass means no violation in the explored runs')
FSN = ('seeded search over worker interleavings, process kills and I/O faults at every file operation and statement; real do-mpc, pickle and scipy.io code on real files '
       'behind an interposed file layer, crash model: process death; a pass means no violation in the explored runs')
CLN = ('seeded search over closed-loop histories with faults at every call-back, solver and integrator call and statement of do-mpc; real do-mpc, CasADi, IPOPT and SUNDIALS code, '
       '%s; a pass means no violation in the explored runs')
CLAIMS = {
 'R01': ('thread schedules, slow and failing cycles, clock jumps, server loss', RTN),
 'R02': ('thread schedules around start/stop, stalls, slow cycles', RTN),
 'R03': ('virtual time over many periods, clock jumps, failures, concurrent starts', RTN),
 'R04': ('injected read/write/step failures and server loss, recorded history checked per cycle', RTN),
 'R05': ('histories of registrations, server failures, crashes and replacements', 'seeded search over registration histories with random model layouts on a simulated OPC UA server; a pass means no violation in the explored runs'),
 'S01': ('process kills, torn writes, full disk and failing sample functions in campaigns of several workers, then a fault-free run', FSN),
 'S02': ('process kills, torn writes and I/O errors; every file compared after every file operation', FSN),
 'S03': ('queries interleaved with sampling workers, read errors, kills and concurrent query threads', FSN),
 'S04': ('failing generators, concurrent exporters, kills and I/O errors against a reference list of cases', FSN),
 'S05': ('concurrent savers, kills and I/O errors; every result file compared after every file operation', FSN),
 'C01': ('histories of steps, failed steps, resets and state changes with injected failures, against an independent integration of the model equations', CLN % 'compared with an own Runge-Kutta/Newton integration within tolerance'),
 'C02': ('histories with bound changes, failing and unsuccessful solves and interrupts; every stored plan checked against an independent transcription', CLN % 'plans checked against an independently written NLP'),
 'C03': ('histories with failing solves, rejected calls, interrupts; each decision compared with an independent optimisation of the current problem', CLN % 'decisions compared with an independently written NLP (constraints, cost and first-order optimality)'),
 'C04': ('histories with rejected measurements, failing solves and interrupts; each estimate compared with an independent window problem', CLN % 'estimates compared with an independently written NLP'),
 'C05': ('a failure or interrupt at every possible point of a step, then twin-run comparison with a loop that never failed', CLN % 'twin runs'),
 'C06': ('histories with failures, interrupts, resets, saves and queries; every recorded field compared with the log of successful steps', CLN % 'records compared with the harness log'),
 'C08': ('histories with failing and varying user functions; arguments and values of every call compared with those used in the problem', CLN % 'call-back log and problem parameters compared'),
 'C09': ('kill at any point (between steps or inside one), rebuild and continue, or reset: twin-run comparison', CLN % 'twin runs'),
 'C10': ('histories of set-point changes, rejected calls and failing user functions against value iteration', CLN % 'gain compared with independent value iteration'),
 'C11': ('injected solver failures, exceptions and unsuccessful statuses; flags and statistics compared with those given by the solver', CLN % 'flags compared with an observer at the solver seam'),
 'C07': ('interleavings (down to single statements, several threads) of creation, configuration and steps of two to four instances; each compared with the same operations alone in a pristine process', CLN % 'twin runs'),
 'C13': ('query threads pre-empted at every statement while steps are made, interrupted queries; answers compared with the records of completed steps', CLN % 'answers compared with snapshots'),
 'C14': ('failing, interrupted, killed and repeated compilations on shared library names, then twin-run comparison with the same controller never compiled', CLN % 'real gcc and dlopen, twin runs'),
 'C15': ('wall-clock jumps, slow threads, steps on other threads, other hash seeds, random states, working directories and environment variables: twin runs; Timer on virtual time', CLN % 'twin runs'),
 'C16': ('models pickled, copied, saved and sent to other processes in chains, interrupted at any statement and while another thread makes steps; facts and twin runs', CLN % 'twin runs and function values'),
 'C17': ('plots drawn by threads pre-empted at every statement while steps are made, after failed and interrupted steps; lines compared with the records of completed steps', CLN % 'lines compared with snapshots'),
 'C18': ('histories of steps, failed solves, bound changes and interrupted differentiations; sensitivities compared with independently solved optimality conditions and finite differences of an independent problem', CLN % 'sensitivities compared with an independent KKT system and finite differences'),
 'C19': ('derivations interrupted at any statement or concurrent with a loop of the original; the derived models simulated and controlled under faults against own matrices and integration', CLN % 'derived models compared with independently computed matrices and trajectories'),
 'C20': ('conversions interrupted at any statement, rejected, of unsupported graphs and in pre-empted threads, and loops with converted models under faults, against ONNX\'s own evaluator', CLN % 'layers compared with the onnx reference evaluator'),
 'C21': ('setups interrupted at any statement, refused, repeated, split and with other settings, also in the middle of a loop: twin-run comparison with a plainly set up object', CLN % 'twin runs'),
 'C12': ('histories of accepted and rejected bound changes between steps and faults; bounds given to the solver compared at every solve', CLN % 'bounds compared at the solver seam and through the getters'),
}
NA = {
}
