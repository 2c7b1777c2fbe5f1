"""The one source of properties.jsonl and MANIFEST.json: `python3 tools/meta.py` rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note="", na=None):
    P.append(
        dict(
            note=note,
            na=na,
            row={
                "id": id,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {
                    "files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": list(observe),
                    "hook_needed": None,
                },
            },
        )
    )


DAL = "yaocptool/methods/network/distributedaugmetedlagrangian.py"
BIP = "yaocptool/methods/network/bipartite_jacobi_admm.py"
INT = "yaocptool/methods/network/intermediary_node_solution_method.py"
AL = "yaocptool/methods/augmented_lagrangian.py"
NET = "yaocptool/modelling/network/network.py"
DS = "yaocptool/modelling/dataset.py"
TO = "yaocptool/util/timeout.py"
NOTEST = "No test runs this part at all: the suite has none for networks solved in a distributed way (the worker library is not even a test dependency)."

prop(
    "D01",
    "Distributed and serial solving of a network give the same answer",
    "Solving a network of connected optimal control problems with one worker process per node returns the same iterations, objective, constraint violations, trajectories and penalties as solving the nodes one after another in a single process, with the same options and random seed. This holds for every order in which the workers execute and answer, for slow workers, and when solvers of some nodes fail in the same solves.",
    ["schedules", "configurations", "fault_sequences", "inputs"],
    "every network and option set generated (2-5 nodes; cycles, several outputs, fan out, parallel connections, intermediary nodes; penalty rules other than the per-node one), every worker schedule and stall, every set of failing solves",
    NOTEST,
    [DAL, BIP, AL, "yaocptool/util/serializer.py"],
    [("distributed loop mirrors the serial loop", DAL + ": solve, _solve_distributed"), ("pickled arguments and results", "yaocptool/util/serializer.py")],
    observe=["the returned distributed result", "its number of iterations"],
    note="Random networks run twice (serial and on simulated workers, real coordinator, real NLP solver) and all outputs compared; assumes the worker library is FIFO per worker and exactly once.",
)
prop(
    "D02",
    "Convergence and violations reported for a network are the real ones",
    "When the distributed solution of a network stops before its iteration limit, every node has a successful solution and, in the trajectories returned, every pair of connected variables differs by less than the requested tolerance. The reported constraint violations, objective, times and table of data are those of the returned trajectories and contain only successful solutions; when no node results exist an explicit error is raised.",
    ["inputs", "configurations", "fault_sequences"],
    "every network, tolerance, penalty rule and inner/outer limit, with any sequence of failing solves (from the first one on)",
    NOTEST,
    [DAL, BIP, "yaocptool/methods/base/distributed_optimization_result.py", AL],
    [("stop test on the errors of all nodes", DAL + ": solve"), ("violations of the relaxed equalities", AL)],
    observe=["number_of_iterations", "constraint_violations", "objective", "results of the nodes"],
    note="The harness recomputes every mismatch and objective from the returned trajectories. For the bipartite method the documented mismatch is half of the difference.",
)
prop(
    "D03",
    "Nodes only ever use the last successful solutions of their neighbours",
    "Every value of a connected variable that a node is given when it is solved comes from the most recent successful solution of the node that owns it (its initial guess, or zero, before the first one), at the same element and collocation point. A failed solve is never used: not by neighbours, not as the next initial guess and not in the returned results, which are the last successful ones.",
    ["fault_sequences", "schedules", "configurations", "inputs"],
    "every network and schedule in which solves of arbitrary nodes fail and return garbage, including the first and the last ones",
    NOTEST,
    [DAL, BIP, INT],
    [("results kept only if successful", DAL + ": the loop over the blocks"), ("parameters built from the last results", DAL + ", " + BIP)],
    observe=["arguments of each node's solve", "returned results"],
    note="Multisets of received values per element are compared with a reference that tracks the last successful solution of each node.",
)
prop(
    "D04",
    "No worker survives and no failure is hidden when distributed solving ends",
    "When distributed solving ends, with a result or with any error (a worker that dies or cannot be started, a solver that raises, an interruption by the user), each worker that was started has been terminated and none is used afterwards. A failure of a worker, of a solver or an interruption reaches the caller as an error instead of being replaced by a result, and at most one worker per node is started.",
    ["crash_points", "fault_sequences", "schedules"],
    "every point at which a worker crashes (before a task, before a reply), start failures, exceptions in any solve, interrupts at any wait, errors while terminating, and combinations",
    NOTEST,
    [DAL],
    [("workers ended in a finally block", DAL + ": distributed solve"), ("results of the workers are awaited", DAL)],
    observe=["terminate calls of each worker", "error raised to the caller"],
    note="Workers are simulated; a crash in a task nobody waits for (the last penalty assignment) is not judged.",
)
prop(
    "D05",
    "Each sweep solves every node once, never two connected nodes at once",
    "Blocks of nodes (given or default) contain each node exactly once, and nodes that are connected to each other are never being solved at the same time. Each sweep solves whole blocks; all of them once for the cyclic (same order always) and sampling orders; the number of sweeps respects the inner and outer limits and the reported iteration counts are the ones performed.",
    ["schedules", "configurations", "inputs"],
    "every network topology, block choice method, given block partition, iteration limits, worker schedule",
    NOTEST,
    [DAL, NET],
    [("default blocks", DAL + ": block creation"), ("block choice", DAL + ": cyclic / sample / choices"), ("waiting for a block before the next one", DAL)],
    observe=["order of the solves", "number_of_iterations"],
    note="The order of all solves is recorded at the public solve of the nodes; overlap is observed at the simulated workers.",
)
prop(
    "D06",
    "Multipliers and penalties of a network follow the method's update",
    "In every solve, both ends of each connection use the same multiplier, which starts at zero and after each outer iteration grows by the penalty times the mismatch of the latest solutions at that element and point, unless updates without improvement are disabled and the mismatch did not improve. Penalties start at the given value and change only by the selected rule: constant, multiplied up to the maximum, multiplied where the mismatch did not halve, or balanced.",
    ["histories", "fault_sequences", "configurations", "schedules"],
    "every history of solves (with failures, repeated or skipped blocks, intermediary nodes, bipartite variant), every update rule and worker schedule",
    NOTEST,
    [DAL, BIP, AL, INT],
    [("multiplier update", AL + ": update of nu"), ("penalty update", AL + ": update of mu"), ("update between outer iterations", DAL)],
    state=[("multipliers", "one trajectory per connection", AL), ("penalty", "one per relaxed equation", AL)],
    observe=["parameters of each node's solve"],
    note="A reference follows the published update from the observed solutions only; when the moment of an update is ambiguous it keeps every hypothesis that is consistent.",
)
prop(
    "D07",
    "A convex network reaches the centralized optimum once faults stop",
    "For a network of convex problems, after solver failures stop, distributed solving brings the connected variables together within a bounded number of outer iterations, and the objective it returns is that of the same network solved as one problem. The composition of the network into a single problem succeeds for any topology.",
    ["inputs", "configurations", "fault_sequences", "schedules"],
    "every generated convex network (2-3 nodes, cycles, fan out, several outputs), constant/bounded/primal rules, both coordination variants and worker schedules, failures in the first sweeps",
    NOTEST + " Convergence from arbitrary failure histories cannot be sampled by a handful of cases.",
    [DAL, BIP, AL, NET],
    [("augmented Lagrangian iteration", DAL), ("composition of the network", NET + ": get_problem")],
    observe=["result of distributed solving", "result of the composed problem"],
    note="60 outer iterations; not judged when a node still failed in the last three sweeps.",
)
prop(
    "T01",
    "A time limit stops work at its deadline and leaves no trace",
    "Work under a time limit is interrupted at the first moment it can be once its limit has passed, never before and never when it finishes in time; the outcome (finished, timed out, raised or silenced) is reported correctly. Errors of the work itself, including time out errors it raises on its own, pass through unchanged, and afterwards no alarm or signal handler is left behind, whatever the wall clock does and also when the process stalls while a limit is being entered or left.",
    ["schedules", "inputs", "fault_sequences"],
    "every program of consecutive limited blocks with interruptible and native work, late delivery of the alarm, wall clock jumps, stalls, errors and wrapped errors, work that catches its interruption",
    "The tests wait for one or two real limits; they cannot place an alarm at every point, delay it, or jump the clock.",
    [TO],
    [("alarm signal and interval timer", TO + ": __enter__, __exit__, handle_timeout")],
    state=[("signal handler and timer of the process", "must be as before afterwards", TO)],
    observe=["outcome of the block", "the process' handler and timer"],
    note="Real context manager on a simulated clock and alarm; ties within 1 ms discarded; with a stall a deadline may be late by its length.",
)
prop(
    "T02",
    "Nested time limits and the caller's own alarm are all enforced",
    "When limited blocks are nested, reused, or entered while the caller has an alarm of its own, each deadline is enforced on time and attributed to the block it belongs to, and leaving a block gives the remaining time back to the enclosing limit or to the caller's alarm and handler.",
    ["schedules", "inputs", "fault_sequences"],
    "every program of nested (up to 4 levels) and consecutive limits, reuse of the same limit object, alarms of the caller, late delivery, errors and wall clock jumps",
    "The tests contain no nested limits and no alarm of the caller; the number of orders of deadlines is unbounded.",
    [TO],
    [("saving and restoring the enclosing handler and timer", TO + ": __enter__, __exit__")],
    state=[("signal handler and timer of the process", "belong to the enclosing block or caller", TO)],
    observe=["outcome and time of each block", "handler and remaining time afterwards"],
    note="Reference with one absolute deadline per block; the caller's alarm is assumed to raise.",
)
prop(
    "R01",
    "Records keep exactly the data inserted, and rejected data changes nothing",
    "A record of signals returns, for each entry, exactly the samples inserted (in order of time, with names and sizes), through any history of insertions, concatenations, copies, lookups and saving/loading. An operation that is rejected leaves every record as it was, and copies never share data with the original.",
    ["histories", "inputs"],
    "every history of up to dozens of operations over several records, with invalid sizes and names, out of order times, copies and reloads",
    "The tests perform a few fixed insertions with valid sizes; they never check the record after a rejected operation or long histories.",
    [DS],
    [("size checks before storing", DS + ": insert_data, extend"), ("sorting by time", DS)],
    state=[("entries", "time and values per entry", DS)],
    observe=["get_entry, to_dataframe, loaded file"],
    note="List based reference compared after each operation.",
)
prop(
    "R02",
    "A saved record is never lost or torn by a failed or concurrent save",
    "After any save that fails, is interrupted or is killed at any point, the file holds the complete previously saved record or the complete new one, never a part, and a failed save is reported as an error. Processes that save and read the same file concurrently always read one complete record, and saves that return normally are the ones found when loading.",
    ["crash_points", "schedules", "fault_sequences"],
    "every interleaving of 1-3 processes saving/reading one path, with no space, I/O errors, short writes, crash or interrupt at every file operation",
    "The tests save once to an empty directory with no fault.",
    [DS],
    [("write to a temporary file, then replace", DS + ": save")],
    state=[("the file", "what survives a crash", DS + ": save, load")],
    observe=["loading the file after the fault"],
    note="Process crashes (not power loss) at every file operation of a simulated file layer over a scratch directory.",
)
MPCF = "yaocptool/mpc/mpc.py"
PLANT = "yaocptool/mpc/plant.py"
prop(
    "M01",
    "Each control cycle measures, estimates, optimises and actuates once",
    "Every iteration of the control loop takes one measurement, estimates from it, optimises from that estimate (with its rearrangement, the last applied control, the given parameters and those taken from the estimate, starting from the given initial guess the first time) and applies the beginning of that solution to the plant for exactly one sampling time. The loop does the requested number of iterations, and without a number it runs until something stops it.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "every plant, problem, estimator (none, ideal, with memory), parameterisation and history of runs generated, stopped by failures or interruptions of any stage",
    "The tests cover construction and single stages; no test follows the data through consecutive iterations.",
    [MPCF, PLANT],
    [("the cycle", MPCF + ": run, get_new_control"), ("parameters from the estimate", MPCF + ": get_new_control, _get_parameter")],
    state=[("plant", "state, time and control", PLANT)],
    observe=["calls of sensor, estimator, optimiser and actuator, with their data"],
    note="Real loop, estimator, optimiser and simulated plant; each stage is observed at its public interface.",
)
prop(
    "M02",
    "A control loop stopped by a failure can be resumed without harm",
    "When a stage of the loop fails or the loop is interrupted at any point, the error reaches the caller, no stage after it runs and nothing is applied to the plant by that iteration; resuming the loop continues from the plant's present state. The plant's trajectory is that of a loop without failures.",
    ["crash_points", "fault_sequences", "histories"],
    "every sequence of failures of sensor, estimator, optimiser and actuator (before and after their work), and interruptions at every line of the loop",
    "The tests contain no failure of a stage and no interruption.",
    [MPCF, PLANT],
    [("the cycle", MPCF + ": run"), ("actuation", PLANT + ": set_control, set_control_function")],
    state=[("iteration data", "must not survive an incomplete iteration", MPCF)],
    observe=["the plant's recorded trajectory against a twin without faults"],
    note="Estimators without memory (a filter that already took a measurement counts it again; not claimed).",
)
prop(
    "M03",
    "A fixed control is applied exactly, alone or between optimised periods",
    "A run with fixed control applies exactly the given control (number, list or vector) for the requested number of samples without using the optimiser, the variant with an estimator estimates once per sample, and optimised runs before and after it are not affected except through the plant.",
    ["histories", "inputs", "fault_sequences"],
    "every alternation of fixed and optimised runs, with failures of any stage",
    "The tests do not mix the two kinds of runs.",
    [MPCF, PLANT],
    [("fixed control", MPCF + ": run_fixed_control, run_fixed_control_with_estimator")],
    observe=["controls recorded by the plant"],
    note="Calls and the plant's own record are both judged.",
)
prop(
    "M04",
    "Applied controls respect their bounds and rate limits across iterations",
    "Whenever the optimiser reports success, the control applied to the plant lies within the bounds of the problem and differs from the control applied before it, in the previous iteration or by a fixed control, by no more than the rate limits.",
    ["histories", "inputs", "fault_sequences"],
    "every history of optimised and fixed periods, noisy plants, and failures between an optimisation and its application",
    "Rate limits across iterations need several iterations with the last control; no test has them.",
    [MPCF, PLANT, "yaocptool/methods/classic/directmethod.py", "yaocptool/methods/classic/collocationscheme.py"],
    [("last control as parameter", "yaocptool/methods/base/solutionmethodsbase.py"), ("rate limit of the first element", "yaocptool/methods/classic/collocationscheme.py")],
    state=[("last control", "read from the plant in each iteration", MPCF)],
    observe=["controls that the plant applied"],
    note="Piecewise constant controls, last control given as a parameter; unsuccessful optimisations are not judged.",
)
prop(
    "P01",
    "The simulated plant follows its model exactly, also after failures",
    "A simulated plant advances by one sampling time per control with that control (a value, or a function of time evaluated at each sub-sample), starting where it stopped; measurements and records agree with that trajectory, and measuring changes nothing. A rejected control changes nothing, and after a failure of the integrator the plant is at the end of the last completed sub-sample and can go on.",
    ["histories", "fault_sequences", "inputs"],
    "every history of controls, control functions, rejected controls and measurements with integrator failures or interruptions at any sub-sample",
    "The tests apply one or two controls without failures.",
    [PLANT, "yaocptool/modelling/system_model.py"],
    [("advancing", PLANT + ": set_control, _apply_control"), ("integration", "yaocptool/modelling/system_model.py: simulate")],
    state=[("x, t, u", "the plant's present", PLANT)],
    observe=["get_measurement", "the data set of the plant"],
    note="Linear plants with a sinusoidal disturbance, where the reference is an exact solution.",
)
prop(
    "P02",
    "Plant noise is reproducible from its seed, isolated and of given covariance",
    "Plants created with the same noise seed give the same noise whatever else draws or reseeds random numbers and in whatever order several plants are used; different seeds give different noise, and without noise there is none. The noise is white with the given covariance.",
    ["schedules", "histories", "inputs"],
    "every interleaving of creation and use of several plants and of other users of the random generators, every covariance including singular ones",
    "The tests use one plant at a time and no other user of random numbers.",
    [PLANT],
    [("own generator", PLANT + ": _initialize_dataset/noise, get_measurement")],
    state=[("random generator", "one per plant", PLANT)],
    observe=["data set of the plant: x, meas, meas_wo_noise"],
    note="Limits of the statistical part are at 6.5 sigma, so that it does not alarm by chance.",
)
SM = "yaocptool/modelling/system_model.py"
SR = "yaocptool/modelling/simulation_result.py"
prop(
    "P03",
    "A model is simulated exactly, in one go, in pieces or again after failures",
    "Simulating a model (differential or differential-algebraic, time dependent, with parameters, parameters per element, or controls given by a feedback), by itself or through an optimal control problem, over one interval, over a sequence of intervals with a control for each, or continued from the final condition of an earlier simulation gives the states, algebraic variables, controls and times of its equations; joining results gives the data of all of them, in order of time. A simulation that fails or is interrupted at any point raises the error; failed, rejected and earlier simulations do not change the model, its copies (which behave like it), the arguments or any result given out before.",
    ["histories", "fault_sequences", "inputs"],
    "every history of simulations, continuations, copies, joins and rejected calls, with failures of the integrator at any element and interrupts at any line",
    "The tests simulate a few models once and check only that it runs; no failure, no sequence of intervals with different controls, no joined result.",
    [SM, SR, "yaocptool/modelling/dae_system.py", DS],
    [("sequence of integrations", SM + ": simulate"), ("copies", SM + ": get_copy, get_deepcopy"), ("joining", SR + ": extend, final_condition")],
    observe=["the data, times and final condition of the results"],
    note="Random histories on linear models compared with the exact solution (matrix exponential); tolerance 2e-5.",
)
EKF = "yaocptool/estimation/extended_kalman_filter.py"
UKF = "yaocptool/estimation/unscented_kalman_filter.py"
PKF = "yaocptool/estimation/pce_kalman_filter.py"
prop(
    "E01",
    "The extended Kalman filter stays exact on linear systems through failures",
    "On a linear (also differential-algebraic or time dependent) system the extended Kalman filter gives, at every step, the mean and covariance of the Kalman recursion for the measurements taken, including outliers and repetitions. A step whose prediction fails or is interrupted raises the error and leaves the filter as it was, so that it can be repeated; filters on the same model do not affect each other and estimates given out never change later.",
    ["histories", "fault_sequences", "schedules", "inputs"],
    "every history of measurements, interleaving of two filters on one model, and failure or interruption of a prediction",
    "The tests check one or two steps of one filter without failures.",
    [EKF, "yaocptool/estimation/estimator_abstract.py"],
    [("prediction and correction", EKF + ": estimate")],
    state=[("x_mean, p_k, t", "state of the filter", EKF)],
    observe=["result of estimate", "data set of the filter"],
    note="Reference recursion with exact transition matrices; tolerance 2e-5 relative to the largest measurement.",
)
prop(
    "E02",
    "Sampling Kalman filters are exact on linear systems through failures",
    "On a linear (also differential-algebraic or time dependent) system the unscented and the polynomial chaos Kalman filters give, at every step, the mean and covariance obtained from the exact moments of the propagated estimate. A step in which the simulation of any sample fails or is interrupted raises the error and leaves the filter as it was; filters on the same model do not affect each other and estimates given out never change later.",
    ["histories", "fault_sequences", "schedules", "inputs"],
    "every history of measurements, interleaving of two filters on one model, and failure or interruption of the simulation of any sample",
    "The tests check one or two steps of one filter without failures.",
    [UKF, PKF, "yaocptool/estimation/estimator_abstract.py", "yaocptool/stochastic/util.py"],
    [("prediction and correction", UKF + ": estimate; " + PKF + ": estimate"), ("samples", UKF + ": _get_sigma_points; yaocptool/stochastic/util.py")],
    state=[("x_mean, p_k, t", "state of the filter", UKF)],
    observe=["result of estimate", "data set of the filter"],
    note="Process noise enters the predicted covariance after the gain, as the library implements it; the reference does the same.",
)
SOL = "yaocptool/methods/base/solutionmethodinterface.py"
OSM = "yaocptool/methods/base/optimizationresult.py"
DIS = "yaocptool/methods/base/discretizationschemebase.py"
COL = "yaocptool/methods/classic/collocationscheme.py"
MSH = "yaocptool/methods/classic/multipleshooting.py"
NLP = "yaocptool/optimization/abstract_optimization_problem.py"
prop(
    "L01",
    "Solving again: nothing of earlier solves leaks into an answer",
    "Whatever was solved before with the same solution method (other initial conditions, parameters, initial guesses or last controls; solves that failed, raised an error in the solver or were interrupted at any point; results that the caller modified), solving it again gives the same answer as a solution method created just for that solve. Solving never changes the arguments given by the caller nor any result given out earlier.",
    ["histories", "fault_sequences", "crash_points", "inputs"],
    "every history of solves with generated arguments (with or without warm starts), every failing or interrupted solve at any line of the library, every change made to earlier results, for collocation and multiple shooting",
    "The tests solve each problem once, without failures.",
    ["yaocptool/methods/base/solutionmethodsbase.py", SOL, DIS, COL, MSH, NLP, OSM],
    [("solver and discretised problem are built once and reused", "yaocptool/methods/base/solutionmethodsbase.py: prepare, solve, call_solver"), ("arguments of the numerical solver", NLP + ": solve, get_default_call_dict"), ("results", OSM)],
    state=[("opt_problem", "discretised problem kept between solves", "yaocptool/methods/base/solutionmethodsbase.py")],
    observe=["results of solve", "arguments given to solve", "earlier results"],
    note="Reference: a new solution method of the same problem and options for every solve, same real NLP solver. The lists of times that results share are not covered; a method interrupted before it was first built may answer with an explicit error.",
)
prop(
    "L02",
    "A solve reported as successful is a feasible optimum of the problem asked",
    "When a solve reports success, the trajectories returned satisfy the dynamics, initial condition, bounds, final and path constraints of the problem with the arguments of that solve, and the objective reported is that of the trajectories and is the minimum of the discretised problem; the result's data sets, values by name and times are those same trajectories. When the numerical solver stops for any other reason (iteration limit, infeasible problem, failure) the result never reports success, and interrupted or failing solves raise the error instead of returning a result.",
    ["inputs", "fault_sequences", "histories", "configurations"],
    "generated linear-quadratic problems (initial times, bounds, path constraints at different points, final constraints, parameters and optimised parameters, control increments), histories of solves, iteration limits, infeasible arguments and failing solvers",
    "The tests compare objectives of a few problems with coarse tolerances and never look at unsuccessful solves.",
    [DIS, COL, MSH, SOL, OSM, "yaocptool/modelling/ocp.py"],
    [("transcription", COL + "; " + MSH), ("success", OSM + ": is_collocation, stats; yaocptool/methods/base/solutionmethodsbase.py: solve")],
    observe=["OptimizationResult: stats, objective, trajectories, parameters"],
    note="Reference: an independent transcription of the same discretised problem (numpy, own quadratic problem). Multiple shooting is compared with the tolerance of the integrator.",
)
prop(
    "S01",
    "Symbolic expressions survive the way between processes",
    "An expression, problem or result that is sent to another process (pickled, as by the worker library or multiprocessing) arrives with the same value for every assignment of its symbols, and symbols shared between parts of one message are still shared on arrival. Messages do not depend on those sent, received, lost, duplicated, truncated or failed before, nor on other threads sending at the same time.",
    ["schedules", "fault_sequences", "histories", "inputs"],
    "every interleaving of threads that send and receive (preempted inside messages), every message lost, duplicated, reordered, truncated or failing in its middle, and generated expressions with shared symbols and equal names",
    "The serialiser has no tests.",
    ["yaocptool/util/serializer.py"],
    [("reducers of symbols and expressions", "yaocptool/util/serializer.py")],
    observe=["objects on arrival"],
    note="Symbols have an identity within one message only. Which module registers the reducers of multiprocessing first is not covered.",
)
prop(
    "A01",
    "Augmented Lagrangian: truthful stop, exact updates, survives failing solves",
    "Solving a problem whose algebraic equations, equalities or state bounds are relaxed stops before the iteration limit only when every relaxed constraint, evaluated on the trajectories returned (with the optimised parameters), is violated by less than the tolerance, and the solution is then that of the original problem; violations, multipliers and success reported are those of the last solve. From each solve to the next (also of later calls) every multiplier grows by its penalty times the violation of its own constraint and every penalty follows its rule and maximum. A solve that raises an error or is interrupted changes neither of them, and arguments, options and earlier results never change.",
    ["histories", "fault_sequences", "crash_points", "configurations", "inputs"],
    "every history of solves of one or two augmented Lagrangians with generated problems, relaxed constraints, penalty rules and limits, and every failing, unsuccessful or interrupted inner solve (interrupts also at any line of the library)",
    "The tests solve one relaxed problem, once, without failures.",
    [AL, SOL, DIS],
    [("multiplier and penalty updates", AL + ": update_parameters, _compute_new_nu_and_error, _update_mu"), ("outer loop", AL + ": call_solver"), ("relaxation", AL + ": _relax_algebraic_equations, _relax_time_equalities, _relax_states_constraints")],
    state=[("nu, mu, last_violation_error", "multipliers, penalties and violations kept between solves", AL)],
    observe=["parameters given to the solver of the relaxed problems", "results of solve: trajectories, violation_error, nu, alg_violation, eq_violation"],
    note="Reference model of multipliers and penalties fed with the violations computed from each inner solution; the optimum is compared with an independent transcription. Inner solves that are not successful count for the multipliers, as the library does. After an interrupt during an update each number may be the old or the new one.",
)
# ------------------------------------------------------------------ not claimed
prop(
    "O01",
    "Optimization problems give the answer of the problem as it stands",
    "Nonlinear and quadratic problems can be built, changed and solved in any order: each answer is that of the problem as it stands at that moment (variables, parameters, constraints and objective in the order they were added, each bound with its own variable or constraint, equalities and inequalities in every accepted form), also after earlier solves. Calls that are rejected change nothing. A solver that fails, raises or is interrupted is never reported as success and leaves nothing behind in later answers; problems, their options and earlier answers never influence each other.",
    ["histories", "fault_sequences", "inputs"],
    "every history of creating variables, including constraints, objectives, solving, rejected calls and failing or interrupted solver calls over one to three problems",
    "The tests build a few problems and solve each one once with a solver that works.",
    ["yaocptool/optimization/abstract_optimization_problem.py", "yaocptool/optimization/nonlinear_problem.py", "yaocptool/optimization/quadratic_problem.py"],
    [("vertical concatenation of variables and bounds", "yaocptool/optimization/abstract_optimization_problem.py: include_variable, include_constraint"), ("cached solver", "yaocptool/optimization/abstract_optimization_problem.py: get_solver, solve")],
    observe=["values returned by solve", "x, g, bounds, options of the problems"],
    note="Convex quadratic objectives with linear constraints and box bounds: the reference keeps the problem as numbers and solves it anew each time; the solver library is real, its failures are simulated.",
)
prop(
    "Q01",
    "Models stay what their history of operations says",
    "After any sequence of creating variables, including equations, merging and connecting models, replacing, parametrizing and removing variables and copying, a model has exactly the variables (by name, in order), equations and control expressions that the sequence defines, evaluated at any point, and no expression contains a variable that the model does not have. Operations that are rejected change nothing, operations that are interrupted leave every other model as it was, and copies and merged models are independent of their sources.",
    ["histories", "programs", "crash_points", "inputs"],
    "every history of up to a dozen operations over one to three models and their copies, with rejected operations and merges or replacements that are interrupted at any line",
    "The tests transform a few small models, each one by one operation, and never continue after an error.",
    ["yaocptool/modelling/system_model.py", "yaocptool/modelling/mixins"],
    [("symbolic substitution", "yaocptool/modelling/system_model.py: replace_variable, connect, include_models, get_deepcopy"), ("variable vectors", "yaocptool/modelling/mixins")],
    observe=["x, y, u, p, theta, u_par, u_expr, ode, alg of every model"],
    note="References are kept by name in Python and compared at random points. Names are unique within a history.",
)
prop(
    "Q02",
    "Optimal control problems stay what their history of operations says",
    "After any sequence of creating problems from models, including states, algebraic variables, controls, parameters and thetas to be optimised, costs (also quadratic ones and the state of the cost) and constraints, merging and connecting problems and replacing, parametrizing and removing variables, a problem has exactly the variables, equations, costs and constraints (and moments of constraints) that the sequence defines, each with its own bounds, initial values and guesses, and passes its own check before solving. The models it was made of, merged problems and all other problems do not change. Operations that are rejected change nothing.",
    ["histories", "programs", "crash_points", "inputs"],
    "every history of up to a dozen operations over one to three problems, with rejected operations and merges that are interrupted at any line",
    "The tests check single operations on small problems, and never continue after an error.",
    ["yaocptool/modelling/ocp.py", "yaocptool/modelling/system_model.py", "yaocptool/modelling/mixins"],
    [("vectors of bounds beside vectors of variables", "yaocptool/modelling/ocp.py: include_state, include_algebraic, include_control, merge, connect, remove_control"), ("substitution in costs and constraints", "yaocptool/modelling/ocp.py: replace_variable, parametrize_control")],
    observe=["attributes of the problems and their models"],
    note="References are kept by name in Python and compared at random points; the sign of equalities is not judged.",
)
prop(
    "N01",
    "Networks stay what their history of operations says",
    "After any sequence of creating, including and sharing nodes, connecting and disconnecting them and inserting intermediary nodes, a network has exactly the nodes and connections that the sequence defines; every node keeps its name and an id that no other node of the network has, and is found by both. A model or problem composed from the network at any moment has exactly the variables, equations, bounds, guesses, costs and constraints of the nodes as they are then, with every connected input equal to its output, and composing does not change the nodes. The initial condition of the network gives every node its part of the simulated composition. Groups of nodes for parallel solving are a partition in which no two nodes are connected. Operations that are rejected, and interrupted compositions and insertions, change nothing.",
    ["histories", "programs", "crash_points", "inputs"],
    "every history of up to about twenty operations over one or two networks of two to five systems (and intermediary nodes), whose problems go on changing, with rejected operations and interrupts at any line",
    "The tests create one small network and check single calls.",
    ["yaocptool/modelling/network/network.py", "yaocptool/modelling/network/node.py"],
    [("identity of nodes", "yaocptool/modelling/network/network.py: include_nodes, connect"), ("composition", "yaocptool/modelling/network/network.py: get_model, get_problem, get_initial_condition"), ("intermediary nodes", "yaocptool/modelling/network/network.py: insert_intermediary_nodes")],
    observe=["nodes, connections, lookups and groups of the network; attributes of composed models and problems; returned initial conditions"],
    note="References are kept by name in Python and compared at random points, irrespective of order; initial conditions are compared with the matrix exponential of the linear reference.",
)
PURE = "No concurrency, time, I/O, randomness or multi-party behaviour is involved: {}. A simulator has nothing to schedule and no fault to inject; it would only be input sampling of a pure function."
prop(
    "C02",
    "Transcriptions converge to the solution of the continuous problem",
    "Collocation and multiple shooting approximate the differential equations to the order of the scheme, for any mesh and degree.",
    ["inputs", "configurations"],
    "all problems, meshes and degrees",
    "The tests use a few problems with coarse tolerances.",
    ["yaocptool/methods/classic/collocationscheme.py", "yaocptool/methods/classic/multipleshooting.py"],
    [("collocation coefficients", "yaocptool/methods/classic/collocationscheme.py")],
    na=PURE.format("an accuracy statement about a pure numerical map"),
)
prop(
    "C03",
    "Indirect and direct methods agree",
    "The indirect method and the direct method give the same optimal trajectories for unconstrained problems.",
    ["inputs", "configurations"],
    "all unconstrained problems",
    "The tests compare a few problems (several of them need a linear solver that is not installed).",
    ["yaocptool/methods/classic/indirectmethod.py"],
    [("adjoint equations", "yaocptool/modelling/ocp.py")],
    na=PURE.format("an equivalence of two pure numerical maps"),
)
prop(
    "C05",
    "Polynomial chaos statistics match the distribution of the uncertainty",
    "Means, variances and bounds computed through polynomial chaos match those of the uncertain parameters' distribution.",
    ["inputs"],
    "all distributions and orders",
    "There are no tests of the statistics.",
    ["yaocptool/stochastic/pce.py", "yaocptool/stochastic/util.py"],
    [("quadrature / least squares", "yaocptool/stochastic/pce.py")],
    na=PURE.format("a statistical accuracy statement; the conversion class also refers to attributes that no longer exist in the library and cannot be run"),
)
prop(
    "C06",
    "Plots and tabulated results show the stored data",
    "Figures and tables derived from results display the stored trajectories without change.",
    ["inputs"],
    "all results",
    "Plots are not tested.",
    ["yaocptool/methods/base/optimizationresult.py", "yaocptool/modelling/simulation_result.py", "yaocptool/util/util.py"],
    [("plotting helpers", "yaocptool/modelling/dataset.py: plot")],
    na=PURE.format("rendering of in-memory data"),
)
