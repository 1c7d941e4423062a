"""Per-property settings: number of runs, evidence texts."""

EP_REAL = ['ExpectationPropagation/Nodes.py', 'ExpectationPropagation/Iterations.py', 'MomentMatching/*',
           'StateModel/Gaussian.py', 'Utils/linalg.py', 'Systems/* (benchmark models and DynamicSystemModel)',
           'autograd', 'numpy and scipy linear algebra']
EP_STUB = ['most model functions are generated by the simulator and called through a fault seam',
           'numpy/scipy cholesky and solve are the real routines behind a fault seam']
EP_STATE = 'hash of (chain length, update, node, which messages are set per node, size class of every marginal precision)'

KF_REAL = ['Filters/KalmanFilter.py', 'MomentMatching/*', 'StateModel/Gaussian.py', 'Utils/linalg.py', 'Systems/*',
           'autograd', 'numpy and scipy linear algebra']

SW_REAL = ['Experiments/EP_FullSweep.py', 'Experiments/EP_Sweep_BearingsOnly.py', 'Utils/Database.py', 'Utils/Metrics.py',
           'ExpectationPropagation/*', 'MomentMatching/*', 'Systems/*', 'sqlite3 module and SQLite library']
SW_STUB = ['operating-system layer of SQLite (files, locks, sync, sleep, clock, randomness): simulated disk',
           'model functions are called through a crash and switch point']
SW_STATE = 'hash of (crash kind and mode, rows and trajectories recovered, passes executed, size of every file)'

PROPS = {
    'C01': dict(quick=500, thorough=20000,
                technique='random update schedules with failing calls; invariant checked after every update',
                note='Checked after every update of every simulated run: product form to 1e-9 of the largest terms seen, '
                     'bitwise locality (1e-9 after solver faults). Samples schedules; trusts numpy/scipy arithmetic.',
                real=EP_REAL, stub=EP_STUB, state_measure=EP_STATE,
                rule='seeded plans: model, data, estimator, update schedule and faults; non-trivial: distinct plans '
                     'that executed at least 5 node updates', min_steps=5,
                simtime='model time covered by the chains'),
    'C02': dict(quick=240, thorough=12000,
                technique='every update of random schedules refined against an independent reference step',
                note='Each executed update is compared with an independently written power-EP step; tolerances come from '
                     'noise injected into the reference, so nothing is concluded where rounding decides.',
                real=EP_REAL, stub=EP_STUB, state_measure=EP_STATE,
                rule='seeded plans: model, data, estimator, update schedule, re-equipping; non-trivial: distinct plans '
                     'that executed at least 5 node updates', min_steps=5,
                simtime='model time covered by the chains'),
    'C03': dict(quick=400, thorough=20000, real=EP_REAL, stub=EP_STUB, state_measure=EP_STATE,
                technique='failures injected at model functions, transforms and solvers; lock-step with a fault-free twin',
                note='Failures are injected at every model call, transform call and numpy/scipy solver call reached by '
                     'random schedules; a second graph runs without them and must stay equal. Solver failures that the '
                     'code absorbs by its jittered fall-back must leave the prescribed result up to that jitter.',
                rule='seeded plans: model, data, estimator, schedule, failing calls and retries; non-trivial: distinct '
                     'plans that executed at least 5 node updates', min_steps=5,
                simtime='model time covered by the chains'),
    'C04': dict(quick=500, thorough=30000, real=EP_REAL, stub=EP_STUB, state_measure=EP_STATE,
                technique='hostile models, data, schedules and distorted model values; properness checked after every update',
                note='After every update the marginal is read in both parametrisations and tested by eigenvalues, independently '
                     'of the code\'s own validation; any exception that was not injected is a violation.',
                rule='seeded plans: strongly nonlinear or badly scaled models, outliers, extreme powers and dampings, '
                     'distorted model values, failing calls; non-trivial: distinct plans that executed at least 5 node updates',
                min_steps=5, simtime='model time covered by the chains'),
    'C05': dict(quick=200, thorough=8000, real=EP_REAL, stub=EP_STUB,
                state_measure='hash of (chain length, round, decade of the distance to the posterior, schedule kind, power, damping)',
                technique='fair random schedules after a faulty prefix; bounded liveness against the exact joint posterior',
                note='Convergence to the dense joint posterior within a bound on fair rounds after the last failure, then '
                     'stability under further updates. Dampings from 0.3 to 1, powers from 0.05 to 1, chains to 8 nodes.',
                rule='seeded plans: linear model, data, power, damping, linearisation, unfair prefix with failures, fair '
                     'schedule; non-trivial: distinct plans that executed at least 5 node updates', min_steps=5,
                simtime='model time covered by the chains'),
    'C06': dict(quick=500, thorough=15000, real=EP_REAL, stub=EP_STUB,
                state_measure='hash of (position of every graph in its pass, operation)',
                technique='interleaved, sliced and checkpointed passes over graphs sharing model and estimator; refined '
                          'against textbook filter and smoother recursions',
                note='Filtering, predicted and smoothed marginals are compared with an independent moment-form recursion; '
                     'tolerances come from noise carried through that recursion, including the vague base belief.',
                rule='seeded plans: model, data, estimator, interleaving of up to three graphs, slices, checkpoints, failing '
                     'work on another graph; non-trivial: distinct plans that executed at least 5 node updates', min_steps=5,
                simtime='model time covered by the chains'),
    'C07': dict(quick=350, thorough=15000, real=EP_REAL + ['copy.deepcopy'], stub=EP_STUB,
                state_measure='hash of (chain length, operation, history lengths of all replicas)',
                technique='replicas deep-copied at random points (also inside updates), diverging and rejoining schedules, '
                          'in-place writes; bitwise comparison of replicas with equal histories',
                note='Bitwise: replicas not operated on never change, replicas with equal histories are equal, histories '
                     'replayed from scratch reproduce them. Includes Monte Carlo transforms with a fixed random state.',
                rule='seeded plans: model, data, estimator, copies, updates with failures, in-place writes; non-trivial: distinct '
                     'plans that executed at least 5 node updates', min_steps=5,
                simtime='model time covered by the chains'),
    'C09': dict(quick=400, thorough=15000, real=KF_REAL, stub=EP_STUB,
                state_measure='hash of (object kind, call, length, how it ended, number of calls before)',
                technique='random call histories with failing and re-entrant calls on shared objects; every call refined '
                          'against textbook recursions',
                note='Filter, smoother, iterated EKF and iterated EKS (Gauss-Newton) are compared with independent '
                     'recursions under noise-derived tolerances after arbitrary call histories.',
                rule='seeded plans: model, objects, calls with arguments and failures; non-trivial: distinct plans that '
                     'processed at least 3 measurements', min_steps=3,
                simtime='model time covered by the filtered segments'),
    'C08': dict(quick=400, thorough=15000, real=KF_REAL, stub=EP_STUB,
                state_measure='hash of (object kind, length, segment, restart mode, failures and calls in between)',
                technique='random segmentations with restarts, failed attempts and unrelated calls; bitwise against the '
                          'uninterrupted run, which is refined against the textbook recursion',
                note='Bitwise when the estimate object is passed on; when rebuilt from stored moments, a deviation from the '
                     'uninterrupted bits is judged against the textbook recursion.',
                rule='seeded plans: model, filter object, measurements, cut points, restart modes, failures; non-trivial: '
                     'distinct plans that processed at least 3 measurements', min_steps=3,
                simtime='model time covered by the filtered segments'),
    'C10': dict(quick=1500, thorough=60000,
                real=['Systems/* (DynamicSystem, DynamicSystemModel, noise models, benchmark systems)', 'numpy random'],
                stub=['some noise models and model functions are the simulator\'s own'],
                state_measure='hash of (model, length, initial state, start time, noise kind, how the simulation ended)',
                technique='noise draws recorded or replaced at the noise seam, with failing and nested simulations; trajectory '
                          're-derived from the draws by independent model functions',
                note='Every returned state and observation must be explained by exactly one recorded draw under an independent '
                     'implementation of the model (1e-10).',
                rule='seeded plans: model, simulations with lengths, initial states, times, failures; non-trivial: distinct '
                     'plans that simulated at least 2 steps', min_steps=2,
                simtime='model time of the simulated trajectories'),
    'C12': dict(quick=120, thorough=6000, real=SW_REAL, stub=SW_STUB, state_measure=SW_STATE,
                technique='sweeps killed or losing power at seeded disk operations on a simulated disk; recovered image checked '
                          'against completed work and an uninterrupted sweep',
                note='Real SQLite on a simulated disk: process kills and power losses before, after or inside any disk operation or '
                     'inside a model function; the recovered database is compared row by row.',
                assumptions=['directory operations (unlink) are durable when they return; created files after their first sync',
                             'the disk does not lie about sync; unsynced 512-byte sectors survive independently'],
                rule='seeded plans: sweep, crash points and kinds; non-trivial: distinct plans that made at least 50 disk operations',
                min_steps=50, simtime='model time of the simulated trajectories'),
    'C13': dict(quick=200, thorough=8000, real=SW_REAL, stub=SW_STUB, state_measure=SW_STATE,
                technique='chains of crashed, interrupted and partial sweeps on a simulated disk; last run compared with '
                          'an uninterrupted sweep',
                note='Values are compared exactly, row by row, with an uninterrupted sweep; Monte Carlo configurations use '
                     'the shipped number of samples.',
                assumptions=['directory operations (unlink) are durable when they return; created files after their first sync',
                             'the disk does not lie about sync; unsynced 512-byte sectors survive independently'],
                rule='seeded plans: sweep, attempts and their crash points; non-trivial: distinct plans that made at least 50 disk operations',
                min_steps=50, simtime='model time of the simulated trajectories'),
    'C14': dict(quick=200, thorough=8000, real=SW_REAL, stub=SW_STUB,
                state_measure='hash of (how the sweep ended, faults that fired, rows and trajectories recorded, passes executed, file sizes)',
                technique='disk errors, short writes, full disks and busy locks injected at seeded operations of sweeps on a simulated disk',
                note='Errors are injected once, several times or persistently at any operation of SQLite\'s file layer; the table is '
                     'compared with an uninterrupted sweep both when the sweep returns and when it raises, also after a power loss.',
                assumptions=['a failed disk operation has no effect, except a short write, of which a part arrives',
                             'directory operations (unlink) are durable when they return'],
                rule='seeded plans: sweep, faults, reruns; non-trivial: distinct plans that made at least 50 disk operations',
                min_steps=50, simtime='model time of the simulated trajectories'),
    'C15': dict(quick=150, thorough=6000, real=SW_REAL, stub=SW_STUB,
                state_measure='hash of (rows and trajectories recorded, file sizes, last six scheduling decisions) at sampled points',
                technique='interleaved sweeps as simulated processes on one simulated disk with stalls and kills; images on the way and the '
                          'final table compared with a single sweep',
                note='The scheduler decides every switch at disk operations and model calls; SQLite\'s locks, busy waits and hot-journal '
                     'recovery are real code over the simulated disk and clock.',
                assumptions=['file locks behave as POSIX locks released when the process dies', 'switches happen at disk operations and model calls'],
                rule='seeded plans: sweeps, schedule, stalls, kills; non-trivial: distinct plans that made at least 50 disk operations',
                min_steps=50, simtime='simulated clock of the interleaved sweeps'),
    'C16': dict(quick=180, thorough=8000, real=SW_REAL + ['the command-line entry points (sparse)'], stub=SW_STUB,
                state_measure='hash of (override, passes to execute, rows before and after, passes at which configurations failed)',
                technique='sweeps over prepared partial tables with configurations failing at seeded passes; passes executed and table '
                          'compared exactly with the expected ones',
                note='Failures are injected as LinAlgError out of the public scoring methods of Gaussian at chosen passes; foreign values in '
                     'prepared rows show whether a row was kept or recomputed.',
                assumptions=['passes are recognised by the times at which the transition function is called'],
                rule='seeded plans: sweeps, prepared rows, failing configurations; non-trivial: distinct plans that made at least 50 disk operations',
                min_steps=50, simtime='model time of the simulated trajectories'),
    'C17': dict(quick=250, thorough=10000, real=SW_REAL, stub=SW_STUB,
                state_measure='hash of (rows recorded, failing calls per pass, chain length, program)',
                technique='sweeps with calls failing inside passes on a simulated disk; recorded rows refined against an independently '
                          'driven and scored loop',
                note='The updates themselves are the repository\'s (checked by C02); pass structure, labels, metrics and trajectories are '
                     'recomputed here. Log likelihoods of near-singular marginals are not compared.',
                assumptions=['the k-th model call of a pass is the same call in both loops'],
                rule='seeded plans: sweep, failing calls, arrays; non-trivial: distinct plans that made at least 50 disk operations',
                min_steps=50, simtime='model time of the simulated trajectories'),
    'C11': dict(quick=120, thorough=8000, twice=True,
                real=EP_REAL + ['Filters/KalmanFilter.py', 'Experiments sweeps', 'Utils/*', 'sqlite3 module and SQLite library'],
                stub=SW_STUB + ['clocks and process id are shifted'],
                state_measure='hash of (job kind, fresh or shared objects, the three operations before it)',
                technique='jobs repeated after random other work, failures, draws and clock jumps, in two processes with different hash '
                          'seeds and histories; results compared bit by bit',
                note='Bitwise comparison within a process (fresh and shared objects, after failing calls) and between two processes; random '
                     'state compared before and after computations that draw nothing.',
                assumptions=['one linear-algebra thread'],
                rule='seeded plans: model, jobs, other work; non-trivial: distinct plans that made at least 5 steps', min_steps=5,
                simtime='model time covered by the jobs'),
    'C19': dict(quick=300, thorough=15000, real=EP_REAL + ['Filters/KalmanFilter.py'], stub=EP_STUB, state_measure=EP_STATE,
                technique='random schedules and filter runs with recorded draws and draws failing at seeded points; projections and updates '
                          'refined against the moments of exactly those draws',
                note='The draws are what the projected function was evaluated on; number, freshness, distribution (7 sigma) and moments are '
                     'checked for every projection, EP updates against a reference step on those samples.',
                rule='seeded plans: model, transforms, schedule, failing draws; non-trivial: distinct plans that executed at least 5 steps', min_steps=5,
                simtime='model time covered'),
    'C18': dict(quick=220, thorough=15000, real=EP_REAL + ['Filters/KalmanFilter.py', 'Utils/Metrics.py', 'PyPy threads (one runs at a time; source instrumented with switch points at import)'],
                stub=['most model functions are generated by the simulator and called through a fault and switch seam', 'locks made by the code under test'],
                state_measure='hash of (task kinds, every window of three consecutive thread switches with their step numbers)',
                technique='simulated threads switched at seeded source lines, calls, returns and model calls; each run compared bit for bit with itself alone',
                note='Two to four runs share model, estimator, transforms, measurements, arguments and prior; model calls of some runs fail. '
                     'Switches happen at lines, calls and returns of the code under test and at model calls, not inside numpy or within an expression.',
                rule='seeded plans: model, tasks, failing calls, switch style and rate; non-trivial: distinct plans that executed at least 5 scheduling points',
                min_steps=5, simtime='model time covered by the runs'),
    'C21': dict(quick=5000, thorough=200000, real=['StateModel/Gaussian.py', 'Utils/linalg.py', 'Utils/Metrics.py', 'scipy and numpy linear algebra', 'PyPy threads (one runs at a time; source instrumented with switch points at import)'],
                stub=['solvers fail at seeded calls', 'locks made by the code under test'],
                state_measure='hash of (operations, every pair of consecutive thread switches with their step numbers) and of (pool size, belief kind, dimension, first operations)',
                technique='simulated threads reading, combining, copying and evaluating shared beliefs under seeded switches and failing solvers; values compared with the distribution each belief was built with',
                note='One to three threads; tolerances follow the conditioning of each belief. Beliefs standing for no information (flat factors, vague marginals) are only required to stay unchanged.',
                rule='seeded plans: beliefs, operations, failing solver calls, switches; non-trivial: distinct plans that executed at least 3 operations',
                min_steps=3, simtime='scheduling points, one microsecond each'),
    'C20': dict(quick=400, thorough=40000, real=['Systems/L96.py', 'Systems/DynamicSystem.py', 'numpy.save and numpy.load', 'Python buffered I/O'],
                stub=['file system calls (open, write, sync, rename, unlink ...): simulated failures, crashes and durable state over a scratch directory',
                      'model steps already computed in the worker are looked up (2% of the runs compute all of them)'],
                state_measure='hash of (paths asked for, outcomes, power loss, files with their sizes)',
                technique='histories of constructions with seeded file errors, short writes, kills and power losses at every file operation, several processes interleaved',
                note='A kill loses buffered data, a power loss also unsynced data and the youngest directory changes. Forcings and dimensions from a list of seven; '
                     'states compared bit for bit with a construction nothing interfered with.',
                rule='seeded plans: constructions, faults, crash points, interleavings; non-trivial: distinct plans that executed at least 3 file operations',
                min_steps=3, simtime='model time integrated for the initial conditions asked for'),
}
