"""What each check runs: number of runs of the quick tier (calibrated to about 25 s on 8 cores), and what its simulator consists of."""
LIB = "/repo headers of the library, compiled unchanged"
CHECKS = {}


def c(pid, **kw):
    CHECKS[pid] = kw


c("C01", runs=100000, seconds=40,
  rule="A run draws a solver and its options, a simulated ODE system with optional zero functions, and 1-6 steps; per step up to 3 attempts with an exception "
       "(3 flavours) injected at a drawn callback point, or a Newton termination request, then an undisturbed attempt. Non-trivial: at least one injected exception left doStep.",
  real=["all ODE solvers, event controller, step size controller, Newton solver, descent directions, Jacobian providers, LU", "parameters and factories"],
  stub=["the ODE system, observers and error norms are played by the simulator", "regular expressions of the number parser are off (build switch of the library)"])

SOLVER_REAL = ["all ODE solvers, event controller, step size controller, Newton solver, descent directions, Jacobian providers, LU", "parameters and factories"]
SOLVER_STUB = ["the ODE system, observers and error norms are played by the simulator", "regular expressions of the number parser are off (build switch of the library)"]
c("C02", runs=60000, seconds=35,
  rule="A run draws an adaptive solver, a system and a script of the step size controller (accept/reject, proposed sizes) and of exceptions; then replays only the accepted attempts with a twin. "
       "Non-trivial: at least one attempt rejected and one accepted.",
  real=SOLVER_REAL, stub=SOLVER_STUB + ["the step size controller is played by the simulator"])
c("C04", runs=120000, seconds=35,
  rule="A run draws an adaptive solver, controller parameters, and error norms (scripted, or real with failing right hand sides) and checks every attempt against a reference policy. Non-trivial: at least one attempt rejected.",
  real=SOLVER_REAL, stub=SOLVER_STUB)
c("C06", runs=80000, seconds=35,
  rule="A run draws a history of a solver (episodes of steps, failures, resets, other options, other systems), resets the solver and compares it with a new one. Non-trivial: the comparison is reached.",
  real=SOLVER_REAL, stub=SOLVER_STUB)
c("C07", runs=50000, seconds=35, extra="fiber", determinism=True,
  rule="A run draws 2-5 tasks (solver, system, failures) and a schedule that interleaves them at callbacks and, in half of the runs, at allocations and clock readings of the library; histories are compared with those of tasks run alone. Non-trivial: more than 2 task switches per task.",
  real=SOLVER_REAL, stub=SOLVER_STUB)
c("C08", runs=100000, seconds=35,
  rule="A run executes a solver under a frozen and under a faulty clock and compares histories, or drives timing statistics and the calibrator against a model. Non-trivial: over 20 clock readings, or an interval accounted.",
  real=SOLVER_REAL + ["timing classes"], stub=["time stamp counter and clock_gettime are simulated"] + SOLVER_STUB)

c("C05", runs=70000, seconds=35,
  rule="A run draws a solver, a piecewise linear motion with up to 4 zero functions (walls, passages, jumps) or truncation by the system, rejections and exceptions; every attempt is compared with events calculated independently. Non-trivial: at least one event.",
  real=SOLVER_REAL, stub=SOLVER_STUB)
c("C14", runs=120000, seconds=35,
  rule="A run plays a script of adding, removing, clearing, notifying (also nested, also from inside observers) and throwing with plain, terminating and scoped observers, notified properties, forwarding chains, or the wiring of the implicit solver; every call is compared with a model. "
       "Non-trivial: a notification calls at least two observers, or a forwarded or property notification is compared.",
  real=["observers, notified properties, forwarding; the implicit Euler solver and its Newton solver"], stub=["observers are played by the simulator"])
ALG_REAL = ["Newton solver, iteration performer, line search, error estimator, descent directions, Jacobian providers and trimmers, LU", "parameters and factories"]
ALG_STUB = ["equations (mapping) and regularization strategy are played by the simulator", "regular expressions of the number parser are off (build switch of the library)"]
c("C09", runs=60000, seconds=35,
  rule="A run draws equations, components and limits of the Newton solver, and a sequence of 1-5 solutions with soft and hard resets, exceptions and non-finite values at drawn evaluations, or termination requests. Non-trivial: convergence, or a fault fired.",
  real=ALG_REAL, stub=ALG_STUB)
c("C10", runs=1000000, seconds=35,
  rule="A run draws a history of operations on two LU factorizers with invalid stencils, non-finite elements and allocation failures, compared with a dense reference. Non-trivial: a solution or a secant update after another operation.",
  real=["LU factorizer, conversion of factors, sparse matrices"], stub=["memory allocator fails on request"])
c("C03", runs=40000, seconds=40,
  rule="A run draws a solver and options and a history of accepted, rejected and failed attempts, other modes, step sizes and initial states; coefficients of every explicit attempt are extracted and order conditions evaluated, implicit attempts are compared with a reference. Non-trivial: an attempt is analysed.",
  real=SOLVER_REAL, stub=SOLVER_STUB + ["step size controller and error norm are played by the simulator"])
c("C19", runs=250000, seconds=35,
  rule="A run draws equations with a sparsity pattern, a descent direction, a Jacobian provider and a trimmer, and a sequence of 1-5 solutions with resets, reports of success, other equations and trimmers, exceptions and non-finite values. Non-trivial: a fault fired or a direction after the first one is compared.",
  real=ALG_REAL, stub=["equations (mapping) and the Newton iteration are played by the simulator"])
c("C11", runs=15000, seconds=45, mods="world reg_alg reg_ode reg_com reg_out", defs="-DSIM_CACHE_REGEX",
  rule="A run draws a history of 3-10 changes of a configuration (valid, invalid value, unknown type, invalid path) and reads, with exceptions of components (constructor, setter, getter) and allocation failures; the tree is compared with a model after each, "
       "and at the end results are compared with those of another configuration with the same values. Non-trivial: a change was refused, or a nested component changed.",
  real=["configuration, parameters, factories, number parser; all components of the library as holders of parameters, solvers for two steps"],
  stub=["an ODE right hand side and an output option that throw on request", "memory allocator fails on request", "regular expressions are compiled once"])
OUT_REAL = ["solveOde, configuration, all output options, statistics, timer calibration", "std::ofstream of the C++ library over the simulated disk"] + SOLVER_REAL
OUT_STUB = ["disk: fopen, write, writev and fclose of the C library are simulated for files under /sim/", "stdout: a stream buffer of the simulator", "clocks, memory allocator", SOLVER_STUB[0], SOLVER_STUB[1]]
c("C12", runs=40000, seconds=40, mods="world reg_alg reg_ode reg_com reg_out", extra="disk",
  rule="A run draws a solver, a system, up to 3 output options with file names and limits, output timing and 1-3 runs of solveOde, each with faults of the disk (open, full, write error once or for good, close, short and interrupted writes), of stdout, "
       "of the allocator, or an exception of the system; the text written is compared with one derived from an independent record of the history, the solution with a twin without outputs. Non-trivial: there are outputs and more than one attempt.",
  real=OUT_REAL, stub=OUT_STUB, expect_faults=["disk-open-error", "disk-full", "disk-write-error", "disk-close-error", "disk-short-write", "disk-interrupted-write"])
c("C13", prog="C12", runs=30000, seconds=40, mods="world reg_alg reg_ode reg_com reg_out", extra="disk",
  rule="As C12, mostly with statistics outputs and longer solutions; the numbers told are compared with an independent count. Non-trivial: there are outputs and more than one attempt.",
  real=OUT_REAL, stub=OUT_STUB)
c("C18", runs=200000, seconds=35,
  rule="A run draws a solver, a system and 1-6 steps; allocations of a twin are counted, then up to 3 allocations per step, and up to 2 per setting of the initial state, fail at drawn places, and the operation is repeated. Non-trivial: an allocation failure has left doStep.",
  real=SOLVER_REAL, stub=SOLVER_STUB + ["memory allocator fails on request"])
c("C15", runs=50000, seconds=35, mods="world reg_alg reg_ode reg_com reg_out",
  rule="A run draws a configuration (solver, reference solver, system, initial state, duration, outputs played by the simulator), applies it, and calls solveOde 1-3 times with exceptions of the system, of observers, and at start, step and end of outputs; "
       "solution, exception and life cycle of the outputs are compared with those of a twin driven step by step. Non-trivial: more than one step, or a failure.",
  real=["solveOde, apply, configuration"] + SOLVER_REAL, stub=["outputs are played by the simulator"] + SOLVER_STUB + ["memory allocator fails on request"])
c("C16", runs=70000, seconds=35,
  rule="A run draws a solver, a system with events and 1-3 error estimations, with exceptions of the system and of observers of the estimate at drawn points after which the estimation is repeated; estimates and statistics are compared with those of a twin "
       "that makes the steps through the public interface of a solver. Non-trivial: at least two estimates compared, or a failed estimation repeated.",
  real=["Richardson error calculator, error statistics"] + SOLVER_REAL, stub=SOLVER_STUB)
c("C20", runs=120000, seconds=35,
  rule="A run draws an equation, a stack of 1-3 adapters, and 2-9 changes, evaluations, normalizations and solutions with exceptions, non-finite values, invalid indices and allocation failures at drawn places; the whole stack is compared with a model after each. "
       "Non-trivial: a fault fired, or a solution is found.",
  real=["adapters, Jacobian calculation, Newton solver and its components"], stub=["equations (mapping) are played by the simulator", "memory allocator fails on request"])
c("C21", runs=18000, seconds=40,
  rule="A run draws a bundled model and its parameters, a solver, 1-3 initial states and 1-60 steps, with up to 2 exceptions per step at drawn points of it; every evaluation, step and impact is compared with the description, the solution with a fault-free twin. "
       "Non-trivial: an impact, or an injected exception has left doStep.",
  real=["test models"] + SOLVER_REAL, stub=["observers are played by the simulator"])
c("C17", runs=20000, seconds=35, mods="",
  rule="A run draws 3-16 registrations, creations, lists and helps on two registries, with generators that throw, return nothing, create or register in the course of a creation, unknown types and failing allocations; or a script of first uses of storage and registries in a new process. "
       "Non-trivial: at least two objects created and verified, or an allocation failed.",
  real=["factories, storage per type, values of parameters"], stub=["generators and constructors are played by the simulator", "memory allocator fails on request"])
c("C22", runs=600000, seconds=35, mods="",
  rule="A run draws 4-16 operations on three vectors, two sparse matrices and a matrix with fixed elements, and on views of them, with failing allocations, invalid indices and missing elements, compared with a model after each operation. Non-trivial: more than 6 operations, or an allocation failed.",
  real=["vectors, sparse matrices, views"], stub=["memory allocator fails on request"])
c("C23", runs=40000, seconds=35,
  rule="A run draws 2-10 replacements of components of a Newton solver (by components, by parameters, of the whole solver), a quarter of them interrupted by a failing allocation and repeated, with solutions in between in which the mapping throws or gives non-finite values; "
       "structure, parameters and solutions are compared with a model and with a twin built anew. Non-trivial: a solution is compared, or an allocation failed.",
  real=ALG_REAL + ["implicit Euler solver", "observers, notified properties"], stub=ALG_STUB + ["memory allocator fails on request"])
