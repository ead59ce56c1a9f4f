#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the list is easy to edit).
import json, os
NL = "include/mpc/NLMPC.hpp"; NLO = "include/mpc/NLMPC/NLOptimizer.hpp"
CON = "include/mpc/NLMPC/Constraints.hpp"; OBJ = "include/mpc/NLMPC/Objective.hpp"
MAP = "include/mpc/NLMPC/Mapping.hpp"; MOD = "include/mpc/NLMPC/Model.hpp"; BASE = "include/mpc/NLMPC/Base.hpp"
IMPC = "include/mpc/IMPC.hpp"; PROF = "include/mpc/Profiler.hpp"; LOG = "include/mpc/Logger.hpp"
L = "include/mpc/LMPC.hpp"; LO = "include/mpc/LMPC/LOptimizer.hpp"; PB = "include/mpc/LMPC/ProblemBuilder.hpp"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "A failed non-linear step holds the last command and never escapes",
  "Whenever the non-linear controller cannot produce a solution in a step - a user callback throws anything at any call, the solver stops with any error, or no finite solution results because the inputs or callbacks were not finite - optimize() still returns normally with status ERROR, is_feasible=false, infinite cost, solver code -1, the command of the previous step (zero before the first one) and all-zero optimal sequences. A step that does not report ERROR only ever returns a finite command, cost and sequences. Whatever is called in between, and also from inside callbacks, getLastResult() and getOptimalSequence() answer with the last finished step until the next one replaces it.",
  ["fault_sequences", "crash_points", "histories"],
  "Every history of steps and every placement of a throwing, non-finite or forced-stop fault: at any call of any user callback (including those made after the solver has finished), or as any solver return code, in any number of consecutive steps.",
  "The tests only run steps whose callbacks succeed; none makes a callback throw, return NaN, or the solver fail, so no failure branch is ever executed.",
  [NLO, IMPC], [("failure branch of run()", NLO), ("step driver", IMPC)],
  ["return value of optimize()", "getLastResult()", "getOptimalSequence()"],
  [("result", "last result; its cmd is what a failing step repeats", NLO)])

p("C02", "A failed step leaves no trace; behaviour depends only on inputs",
  "A failed step influences nothing but that step's own result, the held command and the statistics: deleting every failed step from a history leaves all later results and sequences of the non-linear controller identical, with or without warm start. With warm start off, a step's outcome is a function of the configuration and of the state and input passed to it alone, whatever steps were taken before, and never of uninitialised memory.",
  ["fault_sequences", "histories", "configurations"],
  "Every finite history of successful and failing steps (failures at any callback call or solver return) and of parameter changes between them.",
  "The tests run each controller once or a handful of times from fresh state; no test compares a controller that has been through failures with one that has not.",
  [NLO, CON, OBJ], [("warm-start state and first-iteration flag", NLO), ("per-evaluation scratch members", CON)],
  ["results and sequences of twin controllers"],
  [("opt_vector / first-iteration flag / slack", "memory carried from step to step", NLO)])

p("C03", "A successful non-linear step returns one self-consistent trajectory",
  "When a step of the non-linear controller returns a solution, its optimal sequence starts at the measured state, its command is the first input row, inputs after the control horizon repeat the last free one, every output row is the registered output map at that row's state, input and step index, and the cost is the registered objective on exactly that trajectory. If the solver did not stop early and the problem has a solution, consecutive states obey the registered model - the discrete update or the trapezoidal rule with the sampling time set - at the right step index. The registered callbacks are only ever called with step indices inside the horizon and with correctly sized arguments that start at the measured state.",
  ["histories", "inputs", "configurations", "fault_sequences"],
  "Every problem dimension (static or dynamic), continuous or discrete model, scaling, bound and parameter history, and every measured state; also right after failed steps.",
  "The tests check a few end states of closed loops (for example that a norm goes under a threshold), one dimension set each, without ever comparing the returned sequences with the model.",
  [NLO, MAP, CON, MOD, OBJ], [("decision vector -> trajectory mapping", MAP), ("trapezoidal / discrete residual", CON), ("output map along the horizon", MOD)],
  ["getOptimalSequence()", "Result.cmd", "Result.cost", "arguments of user callbacks"])

p("C04", "Box bounds hold at every point the search visits and returns",
  "Every input and every predicted state the non-linear controller returns, and every trajectory at which it evaluates a user callback up to the finite-difference perturbation, lies within the box bounds in force for that variable and step when the step started. Bounds are in the user's physical units whatever state or input scaling is set before or after them, and a starting guess outside the bounds is moved inside instead of failing the step.",
  ["histories", "configurations", "inputs"],
  "Every sequence of bound, scaling and parameter updates interleaved with steps, every measured state and last input (inside or outside the bounds), warm start on or off.",
  "The tests set one constant bound before a loop and look at whether the loop converges; no test inspects intermediate points, reconfigures bounds, or combines bounds with scaling.",
  [NL, NLO, MAP], [("bound vectors pushed to the solver", NLO), ("initial guess", NLO)],
  ["trajectories passed to user callbacks", "getOptimalSequence()", "solver bounds"])

p("C05", "Horizon-slice setters change exactly the addressed steps",
  "Every setter that takes a slice [a,b) of the horizon (bounds, weights, references, exogenous inputs, scalar constraints) accepts it exactly when it is 'all' or 0 <= a < b <= the horizon it addresses, then updates exactly those steps and leaves every other step as it was; anything else returns false and changes nothing. Over any sequence of matrix, slice and single-step updates, the last accepted update of each step wins.",
  ["histories", "configurations"],
  "Every sequence of accepted and rejected setter calls on both controllers, every slice including empty, reversed, negative and out-of-range ones, every horizon.",
  "One unit test calls the predicates on a few slices; the effect of a slice update on the following optimisation is never observed.",
  [IMPC, NL, NLO, L, PB], [("slice predicates", IMPC), ("replication over a slice", NLO), ("per-step storage", PB)],
  ["return value of setters", "bounds/QP seen by the solver at the next step"])

p("C06", "is_feasible is true exactly when the returned solution meets the constraints",
  "For a step of the non-linear controller that returns a solution, is_feasible is true if and only if every user inequality at the returned trajectory and slack is at most its tolerance and every user equality is within its tolerance in absolute value. A constraint value that is not a number is never feasible, constraints that are not registered never make a step infeasible, and is_feasible is false for every failed step.",
  ["inputs", "fault_sequences", "histories"],
  "Every returned point (converged, iteration-limited, adversarial solver), every tolerance, any subset of registered constraints, constraint values that become NaN or infinite after the solve.",
  "The tests assert nothing about is_feasible for infeasible, iteration-limited or non-finite solutions.",
  [CON, NLO], [("feasibility check of the final point", CON)], ["Result.is_feasible"])

p("C07", "Status tells how the solver stopped; budgets and tolerances are obeyed",
  "The non-linear controller's status is SUCCESS only if the solver met a convergence criterion, MAX_ITERATION exactly if it ran out of its iteration or time budget, and ERROR exactly if it failed. A step never uses more solver evaluations than maximum_iteration nor, on the clock, runs past time_limit by more than one evaluation (0 means unlimited). The parameters in force are always those of the latest parameter update in full, none left over from earlier ones. The same holds for the status and the parameters of the linear controller, which reports the INFEASIBLE its solver finds.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "Every sequence of parameter updates, every speed profile of the callbacks on a simulated clock, every solver stop code.",
  "The tests never set a time limit, never reach the iteration limit on purpose and never set parameters twice; real time cannot be controlled from a unit test.",
  [NLO], [("parameter forwarding", NLO), ("solver code to status mapping", NLO)],
  ["Result.status", "solver evaluation count", "simulated clock at return"])

p("C08", "Execution statistics are exact, whatever the clock does",
  "After any history, the statistics of a controller count every optimize() since the last reset once under the status it returned (failures included), and minimum, maximum, average, total and standard deviation are those of the elapsed times of exactly these steps. Elapsed time is real elapsed time: wall-clock adjustments, forward or backward, never change it or make it negative. Resetting returns to the pristine state without affecting control; printing the statistics shows these values.",
  ["histories", "schedules", "fault_sequences"],
  "Every history of steps, failures and resets, with any callback durations and any wall-clock jumps during or between steps; both controllers.",
  "The one profiler test sleeps three fixed times on the real clock with a 10 ms tolerance; no clock jump, failure status or reset history is reachable that way.",
  [PROF, IMPC], [("incremental statistics", PROF), ("step driver", IMPC)], ["getExecutionStats()"],
  [("stats", "running aggregates", PROF)])

p("C09", "Controllers are isolated from each other under any interleaving",
  "Two or more controllers of the same or different kind and size used by different callers never influence each other: under every interleaving of their calls - preempted between threads at callbacks, clock reads, log writes, solver calls, allocations and function calls, or nested inside one another's callbacks - each returns exactly what it returns when used alone, also when it is handed from one caller to another between calls.",
  ["schedules", "histories"],
  "Every preemption schedule at those boundaries, every mix of static and dynamic controllers, with and without faults in one of them.",
  "The tests are single-threaded and hold one live controller at a time.",
  [NLO, CON, OBJ, MAP, LO, PB, IMPC], [("all state is per instance", NLO)], ["results of each controller against a solo twin"])

p("C10", "Logging never changes control; level and prefix are honoured",
  "Results, sequences and statistics are identical whatever the log level, prefix or stream, including streams that fail, truncate or block, and level changes in the middle of a step. With level NONE nothing is written; otherwise exactly the messages at or above the level are written, each carrying the prefix in force, to the stream in force, also when several callers log at the same time.",
  ["configurations", "fault_sequences", "histories", "schedules"],
  "Every logger configuration history, every stream fault, every interleaving of callers at stream writes, both controllers.",
  "The logger tests check the three levels of the logger object alone, never the library's own messages, a failing stream, or that control is unaffected.",
  [LOG, IMPC, NLO], [("threshold test", LOG)], ["bytes written to the stream", "results of twin controllers"])

p("C11", "The search starts where the warm-start contract says",
  "With warm start enabled, the non-linear controller starts its search from the latest successful solution shifted one step ahead with the last step repeated, however many failed steps lie in between; otherwise, and until a first success, from the measured state and the given last input repeated over the horizon with zero slack. In both cases the start is brought within the bounds in force.",
  ["histories", "configurations", "fault_sequences"],
  "Every history of successes and failures with warm start switched on and off between steps, changing bounds and scalings.",
  "The single warm-start test compares iteration counts of one example; neither a failure nor a toggle in between is exercised and the start point is not observable to it.",
  [NLO, MAP], [("guess construction", NLO)], ["first point at which the solver is started (solver seam)"])

p("C12", "Hard constraints pin the slack to zero, soft constraints free it",
  "With hard constraints the slack handed to the user's functions is zero up to the finite-difference perturbation and no returned solution uses slack; with soft constraints the solver may choose a positive slack, so a problem whose constraints can only be met with slack still yields a solution using it. Switching between the two at any time takes full effect at the next step.",
  ["histories", "configurations"],
  "Every sequence of parameter updates toggling the mode between steps, with and without warm start and after failures.",
  "No test sets hard_constraints=false after construction or toggles it.",
  [NLO, CON, OBJ], [("slack bounds", NLO)], ["slack argument of user callbacks", "solver bounds", "returned solution"])

p("C13", "Scaling is invisible: the same physical problem is solved",
  "For any positive state and input scaling, set at any time, the optimisation handed to the solver is the same physical problem in scaled variables: same measured initial state, objective, dynamics, constraints and bounds at corresponding points, the same starting guess, and gradients that are the derivatives of these functions with respect to the scaled variables. Returned commands, sequences and cost are in physical units.",
  ["configurations", "histories", "inputs"],
  "Every scaling vector, set once or changed between steps, before or after the other settings, for continuous and discrete models.",
  "No test sets a scaling other than one.",
  [MAP, OBJ, CON, NLO, BASE], [("scaling applied in mapping and gradients", MAP), ("objective gradient", OBJ), ("constraint gradients", CON)],
  ["functions and gradients seen by the solver", "returned trajectories"])

p("C14", "The non-linear program and its optimum are the registered MPC problem",
  "The functions and gradients handed to the solver are those of the registered problem - objective, model constraint, user constraints - with consistent derivatives at every point of the search space. On convex problems that have a solution, a step reporting SUCCESS with hard constraints meets them within their tolerances and its cost is within solver accuracy of the true constrained optimum.",
  ["inputs", "histories", "configurations"],
  "Every dimension set, horizon, model family, constraint set and probe point, after any configuration history.",
  "Unit tests check gradients of one objective and of a few constraints at one point and a handful of closed-loop examples; none compares with an independently computed optimum.",
  [OBJ, CON, MAP, NLO], [("finite-difference Jacobians", CON), ("objective gradient", OBJ)],
  ["functions and gradients seen by the solver", "Result.cost against a reference optimum"])

p("C15", "Statically and dynamically sized controllers behave the same",
  "A controller with compile-time dimensions and one with the same dimensions given at run time accept the same calls, return the same success values and, step by step over any history including failures and reconfigurations, the same results, sequences and statistics up to rounding.",
  ["histories", "configurations", "fault_sequences"],
  "Every API history over every dimension set, for both controllers.",
  "The tests instantiate both variants but each test case looks at one call sequence in isolation; several setters are never called on a dynamic controller.",
  [NL, NLO, CON, L, LO, PB, "include/mpc/Types.hpp", "include/mpc/Dim.hpp"], [("conditional resize", "include/mpc/Types.hpp")],
  ["results of a static and a dynamic twin"])

p("C16", "The linear controller always optimises exactly the documented problem",
  "After any history of model, weight, reference, disturbance, bound and scalar-constraint updates, the quadratic program given to the solver describes, up to the factor one half and an additive constant, the documented tracking cost over trajectories of the documented model from the measured state and last input: its feasible set admits exactly the trajectories satisfying every bound in force at its step, with inputs constant after the control horizon.",
  ["histories", "configurations", "inputs"],
  "Every reconfiguration history, dimension, control/prediction horizon pair, measured state and last input.",
  "The linear tests need OSQP and check a few literal matrices for one configuration; no history of updates and no control horizon shorter than the prediction horizon is checked.",
  [PB, LO, L], [("assembly of P, q, A, l, u", PB), ("per-step bookkeeping", PB)], ["the QP at the solver interface"],
  [("problem matrices", "rebuilt on each update", PB)])

p("C17", "The linear controller survives every solver outcome",
  "For every outcome of the QP solver - solved, inaccurate, iteration or time limit, infeasible, failed set-up, failed solve - optimize() of the linear controller returns normally with the documented status. When no usable solution exists it reports that status, holds the previous command, is not feasible, has infinite cost and zero sequences; otherwise the sequences, outputs and command are those of the solver's solution. Nothing non-finite is ever returned or carried into later steps, which behave as if the failed step had not happened; the last result and sequence can be asked for until the next step replaces them.",
  ["fault_sequences", "histories"],
  "Every sequence of solver outcomes interleaved with reconfigurations and steps, warm start on or off.",
  "The linear tests only run problems OSQP solves.",
  [LO], [("solution extraction", LO), ("status mapping", LO)], ["Result", "getOptimalSequence()", "solver call log"],
  [("previous primal/dual", "carried to the next warm start", LO)])

p("C18", "No step or failure leaks, corrupts or strands resources",
  "Destroying a controller at any moment of any history, before a first step or after failures, returns every allocation it made, and solver work spaces are set up and cleaned up exactly once. An allocation failure at any point of a step surfaces as an ERROR result or as the standard out-of-memory exception, never as a crash or leak, and the controller then carries on as if that step had either completed or not happened. An allocation failure inside a configuration call surfaces as a refusal or as the same exception, and the call takes full effect when it is repeated; a controller whose construction runs out of memory leaves nothing allocated.",
  ["crash_points", "fault_sequences", "histories"],
  "Every allocation of a step, a configuration call or a construction failed in turn or at random, every history, both controllers.",
  "No test injects allocation failures or accounts for memory.",
  [NL, NLO, L, LO, IMPC], [("ownership of optimizer and solver objects", IMPC), ("solver set-up and clean-up", LO)],
  ["allocator seam", "solver seam"])

p("C19", "The linear warm start hands the solver the latest good solution",
  "With warm start enabled, the solver of the linear controller is given exactly the latest good primal/dual solution, or the pair installed by the user if that is more recent, and the getters return the same pair; with it disabled no warm start is given. A pair whose size does not fit the problem is never passed to the solver.",
  ["histories", "fault_sequences", "configurations"],
  "Every history of steps, solver failures, user-installed pairs (right or wrong size) and parameter changes.",
  "The warm-start test round-trips one pair after one solved step.",
  [LO, L], [("previous primal/dual store", LO)], ["warm-start calls at the solver interface", "getSolverWarmStartPrimal/Dual()"])

p("C20", "Reconfiguring equals configuring afresh",
  "After any sequence of setter calls interleaved with steps, a controller behaves exactly like a new one given only the final settings: a function, tolerance, parameter, scaling, sampling time, bound, model, weight, reference or disturbance set again fully replaces the earlier one, in any order of calls. Every setter returns true exactly when its setting took effect.",
  ["histories", "configurations"],
  "Every sequence of all setters, repeated and in every order, interleaved with steps and failures.",
  "Each test configures a controller once in the canonical order.",
  [NL, NLO, CON, MOD, L, PB, LO], [("binding of functions to the solver", NLO), ("bounds, weights and references per step", PB)], ["results of a reconfigured controller against a fresh twin"])

p("C21", "Model discretisation and integration are numerically correct",
  "The discretisation helpers return the exact zero-order-hold discretisation of a continuous linear model, and the Runge-Kutta integrator approximates the flow of the given vector field to fourth order.",
  ["inputs"], "Every model matrix and sample time.",
  "The tests check one matrix and one step.",
  ["include/mpc/Utils.hpp", "include/mpc/Integrator.hpp"], [("matrix exponential", "include/mpc/Utils.hpp"), ("RK4", "include/mpc/Integrator.hpp")],
  ["return values"])
p("C22", "The Python binding mirrors the C++ controllers",
  "Every operation of the Python module has the effect and result of the C++ call it wraps, and Python exceptions raised in callbacks surface like C++ ones.",
  ["histories", "fault_sequences"], "Every call sequence from Python.",
  "There is no test of the binding.",
  ["python"], [("pybind11 wrappers", "python")], ["Python module"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), max(len(x["title"]) for x in P))
