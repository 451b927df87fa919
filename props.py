TESTS = "The tests of the repository check construction of vectors and one LU factorization; no ODE solver is run by them. "
SOLVERS = ["ode/OdeSolverExplicitRK.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverExplicitEuler.h", "ode/OdeSolverRK4.h", "ode/OdeSolverDOPRI45.h", "ode/OdeSolverDOPRI56.h",
           "ode/OdeSolverDOPRI78.h", "ode/OdeSolverGragg.h", "ode/OdeSolverExtrapolator.h", "ode/OdeSolverImplicitEuler.h", "ode/OdeSolverRosenbrock_W_base.h", "ode/OdeSolverRosenbrock_W1.h",
           "ode/OdeSolverRosenbrock_SW2_4.h", "ode/LinearOdeEventController.h"]

prop("C01", "A step that fails with an exception can be repeated as if never tried",
     """Whenever an exception thrown by user-supplied code (the ODE right hand side, zero functions, phase state switching, error norm, step or iteration observers) leaves a step of any ODE solver
     before the step is complete, the current time and state are exactly those before the step, and after any number of such failures repeating the step yields the time, state, accepted and rejected attempts and
     post-step reports that the step would have had without the failures (bitwise; to the accuracy of the Newton solver, as far as it converges, where quasi-Newton updates or a Newton-based predictor make results history-dependent).
     An exception thrown by a post-step observer on an accepted attempt leaves the step complete, and the solution continues from there as if nothing happened. Repetition never raises an exception of its own.""".replace(" Repetition never raises an exception of its own.", ""),
     ["fault_sequences", "inputs", "configurations"],
     "Every solver and option set, every ODE system with zero functions, every sequence of steps, every point of a step where user code runs, every number of consecutive failures.",
     TESTS + "A single test throws at one place; the guarantee is about every callback invocation in every step of every solver, including repeated failures and failures at events.",
     SOLVERS, [("state is committed after the last callback of an attempt", P + "ode/OdeSolverExplicitEmbeddedRK.h doStep"), ("temporary changes of the state are rolled back", P + "ode/OdeSolverGragg.h doStep"),
               ("event controller re-initialisation", P + "ode/LinearOdeEventController.h"), ("Newton iteration restored after exception", P + "alg/NewtonIterationPerformerImpl.h")],
     observe=["initialTime()/initialState() of the solver", "pre- and post-step observers"],
     note="""Seeded search over solvers, systems and fault points; each faulted execution is compared with a fault-free twin of the same binary. Bounded to at most 6 steps and 3 consecutive failures per step.
     Trusts the simulator and the comparison with the twin (a defect that affects both equally is left to other properties).""")

prop("C02", "Rejected attempts leave no trace and reports to observers are truthful",
     """In a solver with step size control, an attempt rejected by the step size controller changes neither time nor state, switches no phase and reports no event, and the next attempt is made from the same time and state with exactly the step size proposed by the controller;
     consequently the accepted attempts produce the same times, states and events as if the rejected ones had never been made. The controller is consulted exactly once per attempt, with the attempted step size, the calculated error norm and the order of the method.
     Every attempt is announced to pre-step observers with the size attempted, and its post-step report states the attempted size, acceptance, change of step size, error norm and truncation as they really were; a step ends with exactly one accepted attempt, or with an exception when the proposed size is at or below the minimum.""",
     ["histories", "fault_sequences", "configurations", "inputs"],
     "Every sequence of accept/reject decisions and proposed step sizes, every error norm value including NaN and infinity, every adaptive solver and option set, with and without exceptions in between.",
     TESTS + "Rejection patterns that matter (several rejections in a row, rejection before an event, rejection after an exception) are a matter of the history, not of one input.",
     ["ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverExtrapolator.h", "ode/OdeSolverRosenbrock_SW2_4.h", "ode/LinearOdeEventController.h", "ode/interfaces/OdeStepSizeController.h"],
     [("attempt loop", P + "ode/OdeSolverExplicitEmbeddedRK.h doStep"), ("attempt loop", P + "ode/OdeSolverRosenbrock_SW2_4.h doStep"), ("stages and attempt loop", P + "ode/OdeSolverExtrapolator.h doStep")],
     observe=["step size controller and error norm interfaces", "pre- and post-step observers"],
     note="""Seeded search; the simulator plays the step size controller and the error norm and checks every call and report as it happens; afterwards a twin makes only the accepted attempts and must reproduce them.
     Bitwise comparison except where Newton iterations or Jacobian re-evaluation make results depend on the number of attempts (1e-6).""")

prop("C04", "Adaptive step size control obeys its policy and never accepts bad steps",
     """With the standard step size controller an attempt is accepted exactly if its error norm is within the tolerance; NaN and infinite error norms, and errors made by a non-finite right hand side, are always rejected, so that an accepted state is finite whenever the starting state is.
     With error e, tolerance T and order p of the method, the size of the next attempt is the attempted size times insurance*(T/e)^(1/(p+1)), not less than the maximum decrease factor after a rejection; after acceptance it is changed only if that factor reaches the minimum increase factor, is limited by the maximum increase factor and by the maximum step size, and an already larger step is left as is; a zero error leaves the step size as it is.
     With error check disabled every attempt is accepted and the step size never changes; a step size at or below the minimum is reported by an exception rather than attempted, and once errors are within tolerance a step is made in a single attempt.""",
     ["fault_sequences", "inputs", "configurations", "histories"],
     "Every sequence of error norms (any magnitude, zero, infinite, NaN), every parameter set of the controller, every adaptive solver, non-finite right hand sides at any call, changes of the policy between steps.",
     TESTS + "The policy has several interacting limits whose combinations along a history no sample covers, and non-finite values reach the policy only through faults.",
     ["ode/OdeStepSizeSimpleController.h", "ode/ErrorInfNormCalculator.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverExtrapolator.h", "ode/OdeSolverRosenbrock_SW2_4.h", "la/VectorTemplate.h"],
     [("step size policy", P + "ode/OdeStepSizeSimpleController.h controlStepSize"), ("error norm", P + "ode/ErrorInfNormCalculator.h"), ("minimum step size", P + "ode/OdeSolverExplicitEmbeddedRK.h doStep")],
     observe=["step sizes announced to pre-step observers", "post-step reports"],
     note="""Seeded search against an independently written reference policy (relative tolerance 1e-12; error norms within 1.5e-5 of the tolerance in terms of the factor may go either way). The error norm is scripted, or calculated by the library while the right hand side fails.""")

prop("C05", "Every event is handled exactly once, the earliest first, at its place",
     """A step of an ODE solver (with the linear event controller) at whose end a zero function has changed sign since the start of the step in a direction that its flags react to is truncated at the earliest such zero, located by linear interpolation between the start and the end of the step;
     the phase state is switched there exactly once, with exactly one non-zero transition, of the right sign, for the function that caused the event, with the interpolated state and time, and the solution continues from the switched state at that time (an implicit solver computing its Jacobian anew); the post-step report of the step names the function and the transition. Without such a sign change the step is neither truncated nor switched, so that no event is lost, repeated or invented - also when attempts are rejected or steps fail and are repeated, when several functions cross zero in a step,
     when a step ends exactly at a zero, and after the switch makes functions jump (those flagged for recomputation are sampled again); a one-directional function is an event when it is beyond zero at the end of a step. If there are no zero functions, the system itself may truncate the step by truncateStep, and the solution continues from the state and time it provides; an event controller of the user's is given the state at the start and the end of every accepted attempt, and the linear interpolation between them.""",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "Every solver and option set, every system of zero functions with any flags, every step size sequence, every sequence of rejected attempts and exceptions between events.",
     TESTS + "Event handling depends on signs remembered from earlier steps, so losing or repeating an event needs a particular history (an event, then a rejection or a failure, then another event).",
     ["ode/LinearOdeEventController.h", "ode/interfaces/OdeEventController.h", "ode/interfaces/OdeSolverEventController.h"] + SOLVERS[:-1],
     [("zero functions at the start and at the end of a step", P + "ode/LinearOdeEventController.h atStepEnd"), ("truncation by the system", P + "ode/interfaces/OdeRhs.h truncateStep"), ("continuation after switch", P + "ode/interfaces/OdeSolverEventController.h")],
     observe=["OdeRhs::switchPhaseState", "post-step observers", "initialTime()/initialState()"],
     note="""Seeded search over piecewise linear motions, for which every solver is exact up to round-off and the simulator calculates events independently (tolerance 1e-7; outcomes that depend on round-off may go either way). Up to 14 steps, 4 zero functions.""")

prop("C06", "Setting a new initial state makes a solver forget its past",
     """After an initial state is set (not in the soft mode meant for continuing a solution), a solver behaves exactly as a newly created solver with the same options, system and initial state: same attempts, step sizes, times, states, events, reports and exceptions, bit for bit.
     This holds whatever the solver did before: steps, rejected attempts, failed steps, events, non-finite states, changes of options and components (reference and Newton solvers, order of variables) since restored, replacement of the ODE system by one with other variables and zero functions, and soft resets.
     Setting an initial state makes it the current time and state at once.""",
     ["histories", "fault_sequences", "configurations"],
     "Every history of a solver object made of steps, failures, resets, option changes and system replacements, for every solver and option set.",
     TESTS + "Leaked state (Jacobians, factorizations, step sizes, zero function values, cached right hand sides) shows only after particular histories.",
     SOLVERS + ["alg/NewtonIterationPerformerImpl.h", "alg/NewtonSolver.h", "alg/DefaultJacobianProvider.h", "alg/SparseJacobianProvider.h"],
     [("reset of internal state", P + "ode/interfaces/OdeSolver.h setInitialState"), ("hard reset of the Newton solver", P + "alg/NewtonIterationPerformerImpl.h reset"), ("reset of the event controller", P + "ode/interfaces/OdeSolverEventController.h")],
     observe=["initialTime()/initialState()", "post-step observers"],
     note="Seeded search over histories; bitwise comparison with a new solver of the same binary, for up to 5 steps after the reset.")

prop("C07", "Solvers are isolated from each other and deterministic",
     """Any number of solvers, each with its own system and options, may be used by tasks that interleave at any point where a solver calls user code, allocates memory or reads a clock, and each produces exactly the history (states, reports, sequence of callbacks, exceptions) it produces alone, bit for bit.
     This holds also while other tasks create, configure and destroy components, and while steps of other solvers fail.
     Repeating the same work in the same or in a new process produces the same history.""",
     ["schedules", "fault_sequences", "configurations"],
     "Every interleaving of 2-5 tasks at callbacks, allocations and clock readings, every mix of solvers, systems and failures.",
     TESTS + "Interference through shared or static data shows only under particular interleavings, and uninitialised data only by luck.",
     SOLVERS + ["infra/PerTypeStorage.h", "infra/Factory.h", "infra/cxx_observers.h", "alg/NewtonSolver.h", "lu/LUFactorizer.h", "src/PerTypeStorage.cpp"],
     [("all working storage belongs to a solver object", P + "ode/interfaces/OdeSolver.h"), ("process-wide registry is only read after start", P + "infra/Factory.h"), ("copy-on-write vectors", P + "la/VectorTemplate.h")],
     observe=["all callbacks of the solver, initialTime()/initialState()"],
     note="""Seeded search over schedules of fibers switched inside callbacks and, within steps, at memory allocations and clock readings of the library; no preemption between those, so data races at the level of instructions are not covered. What is initialized at its first use is initialized before. Each run is also repeated in a second process with other contents of fresh memory.""")

prop("C08", "Clocks never influence solutions, and measured intervals add up",
     """Whatever the processor and system clocks do (stop, run steadily, stall, jump forward, go backward or wrap around), solutions, reports and the numbers of timed operations are the same, bit for bit.
     Time statistics hold exactly the number and the sum of the intervals measured, are added up exactly, also when a measured scope is left by an exception, and their average is the sum divided by the number (zero if there are none).
     Conversion to milliseconds is offered only after calibration over at least 100 ms and a non-zero number of ticks, in which case it is proportional with the calibrated ratio; otherwise conversion is refused and intervals are formatted in ticks; statistics of the components of a solver are told together under their names, and equal names are refused.""",
     ["fault_sequences", "schedules", "configurations"],
     "Every behaviour of the clocks at every reading, every solver and option set, every sequence of timing operations.",
     TESTS + "Tests cannot control the time stamp counter, so they see only one well-behaved clock.",
     ["timing/OpaqueTickCounter.h", "timing/TimingStats.h", "timing/TimerCalibrator.h", "lu/LUFactorizer.h", "src/OpaqueTickCounter.cpp", "src/TimerCalibrator.cpp"],
     [("interval measurement", P + "timing/OpaqueTickCounter.h"), ("statistics", P + "timing/TimingStats.h"), ("calibration", "src/TimerCalibrator.cpp")],
     observe=["TimingStats", "TimerCalibrator", "solver histories"],
     note="Seeded search with the time stamp counter and the system clock replaced by simulated ones at compile and link time.")

prop("C14", "Observers are notified in order, exactly once, whatever they do meanwhile",
     """A notification calls the observers registered when it starts, in the order of registration, each exactly once and with the argument of the notification, except for those removed before their turn; a removed observer is never called again; a registration that fails for lack of memory leaves the sequence as it was; observers may add, remove and clear observers (themselves included) and start nested notifications while being called, and each of these notifications is complete and in order; an observer being called stays alive until it returns; identifiers of registered observers are unique; a scoped observer is registered exactly until it is finished or destroyed; an exception thrown by an observer ends the notification and leaves the sequence usable; a terminating notification calls all observers and returns true exactly if at least one returned true. A notified property holds the value set before its observers are called, exactly once per setting; forwarded notifications arrive exactly once in order, and iterations and Jacobian refreshes of the Newton solver reach the observers of the implicit ODE solver exactly once, also after its components have been replaced.""",
     ["schedules", "histories", "fault_sequences"],
     "Every sequence and nesting of adding, removing, clearing and notifying, with exceptions at any call; every sequence of reconfigurations of a solver.",
     "No test covers observers. What goes wrong (skipped or doubled calls, use of a destroyed observer) needs particular re-entrant operations during a notification.",
     ["infra/cxx_observers.h", "infra/def_prop_class.h", "ode/OdeSolverImplicitEuler.h", "alg/interfaces/NewtonSolverInterface.h"],
     [("iteration over observers while they change", P + "infra/cxx_observers.h"), ("notified properties", P + "infra/def_prop_class.h"), ("forwarding to ODE solver observers", P + "ode/OdeSolverImplicitEuler.h")],
     observe=["calls of observers"],
     note="Seeded search over scripts of up to 200 operations nested up to 3 levels, each call compared with a reference model; memory errors are detected by AddressSanitizer.")

ALG = ["alg/NewtonSolver.h", "alg/NewtonIterationPerformerImpl.h", "alg/SimpleNewtonLinearSearch.h", "alg/SimpleErrorEstimator.h"]
DDIRS = ["alg/SimpleNewtonDescentDirection.h", "alg/ConstJacobianNewtonDescentDirection.h", "alg/JacobianBroydenUpdateNewtonDescentDirection.h", "alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h",
         "alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h", "alg/JacobianHartUpdateNewtonDescentDirection.h"]
prop("C09", "The outcome reported by the Newton solver is true",
     """When the Newton solver reports convergence, the solution is finite, the residual there is within the absolute tolerance and the last change of the solution relative to its previous value is within the relative tolerance (a zero previous value counts as no change); as soon as an iteration satisfies both the solver reports convergence and iterates no more; the residual it keeps is that of its current solution, and no iteration increases the Euclidean norm of the residual, iterations are announced with consecutive numbers starting from zero, and at most the maximum number of them is made per attempt. If the attempt diverges or exceeds that number, and computing everything anew may help (all combinations of components but the simple descent direction with the default Jacobian provider), there is exactly one more attempt, from the same initial guess;
     so a failure with data of an earlier solution is reported only when a new solver fails, too; an observer's request to terminate stops the iterations at once, and only then is termination reported; the search along a descent direction returns the best ratio it has tried, goes backwards only if no ratio tried forward reduces the residual, and gives up only if none does, and the descent direction is told of success exactly upon convergence. Exceptions, allocation failures and non-finite values of the mapping never lead to false convergence or a solution different from that of the last iteration, and an exception of the mapping always leaves the solver; after a hard reset the solver behaves as a new one, bit for bit, and a regular linear equation is always solved.""",
     ["fault_sequences", "histories", "inputs", "configurations"],
     "Every mapping (regular, singular, without solutions, undefined in places), initial guess, combination of descent direction, Jacobian provider and trimmer, tolerances and limits; exceptions and non-finite values at any evaluation of the mapping; failures at any allocation; every sequence of soft and hard resets.",
     TESTS + "No test runs the Newton solver; what matters are failing evaluations in particular iterations and data kept from one solution to the next.",
     ALG + DDIRS + ["alg/DefaultJacobianProvider.h", "alg/SparseJacobianProvider.h", "lu/LUFactorizer.h"],
     [("iterations and attempts", P + "alg/NewtonSolver.h run"), ("consistency of solution and residual", P + "alg/NewtonIterationPerformerImpl.h iteration"), ("convergence criteria", P + "alg/SimpleErrorEstimator.h currentStatus"), ("line search", P + "alg/SimpleNewtonLinearSearch.h lineSearch")],
     observe=["result of run()", "iteration observers", "currentSolution(), currentResidual()", "calls of the mapping"],
     note="""Seeded search over equations with up to 5 unknowns and sequences of up to 5 solutions; the criteria are checked in every iteration by evaluating the equations independently, runs after a hard reset are compared with a new solver.""")

prop("C10", "The LU factorizer solves the system given last, whatever happened before",
     """The factorizer solves the linear system with the matrix given last (to round-off; exactly, when all intermediate values are exactly representable), whichever matrices, sizes, stencils, singular or non-finite matrices and failures came before, and whether the matrix is given by setMatrix or by setMatrixFast, with a stencil inside or outside the previous one; it factorizes once per matrix, when first needed, and elements, size and envelope it tells are those of the matrix given. An incomplete or non-square stencil is refused by an exception; a refused matrix, and an allocation failure in setMatrix, leave the factorizer as it was; after an allocation failure in setMatrixFast giving a matrix again works.
     After a secant update (by either method) the matrix satisfies the secant condition, has no elements outside its envelope, is left alone if the condition holds already, and solutions are those of the updated matrix; copies are independent.""",
     ["histories", "fault_sequences", "inputs"],
     "Every sequence of matrices with a regular LU decomposition without pivoting (any stencil, any size), solutions, secant updates, copies, invalid matrices and allocation failures.",
     "The only related test factorizes one matrix. Reuse of a factorizer for matrices with other stencils and sizes, and after failures, is what solvers rely on.",
     ["lu/LUFactorizer.h", "lu/util.h", "la/SparseMatrixTemplate.h"],
     [("envelope and storage", P + "lu/LUFactorizer.h setMatrix"), ("reuse of the storage", P + "lu/LUFactorizer.h setMatrixFast"), ("factorization on demand", P + "lu/LUFactorizer.h solve"), ("secant update of the factors", P + "lu/LUFactorizer.h secantUpdateHart")],
     observe=["solve(), elementAt(), size(), isFactorized(), firstCol(), firstRow(), lastCol(), timingStats()"],
     note="""Seeded search over histories of up to 14 operations on two factorizers of up to 14 equations with injected allocation failures and invalid matrices; matrices are products of integer factors (exact comparison) or diagonally dominant (1e-7). Memory errors are detected by AddressSanitizer.""")

prop("C03", "Every step is a step of the advertised method and order",
     """Every attempt of a step made by an ODE solver, whatever attempts, rejections, changes of the step size, mode or initial state and failures preceded it, is one step of size h of the method the solver is named for, and the time advances by exactly h. For the explicit solvers (euler, rk4, dopri_45, dopri_56, dopri_78, gragg, and extrapolator over euler or, symmetric, over gragg) the derivatives used belong to this step, each is evaluated at the time its state belongs to, the result satisfies the order conditions of Runge-Kutta methods (checked up to order 8) for the order the solver tells,
     and the error estimate given to the error norm is the difference of the results of the higher and the lower order, which vanishes exactly to the lower order; gragg gives the state of the midpoint rule, or that smoothened if told so; the extrapolator makes the numbers of substeps of its sequence (harmonic 1,2,3,..., romberg 1,2,4,..., bulirsch 1,2,3,4,6,8,12,...).
     For rosenbrock_w1 and rosenbrock_sw2_4 result and error estimate are those of the W-methods with W = I - h*d*J, where J is the Jacobian matrix at the state where the solution was started by the last (not soft) setting of the initial state, while the implicit alpha method satisfies its equation x1 = x0 + h*(alpha*f(t1,x1) + (1-alpha)*f(t0,x0)) to the accuracy of the Newton solver.""",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "Every history of accepted, rejected and failed attempts, of step sizes and resets, every solver and option set; every smooth system (order conditions are necessary and sufficient).",
     TESTS + "A test with one system sees the sum of all errors for one history; a wrong coefficient or a stale derivative may change the last digits only.",
     SOLVERS + ["ode/ExplicitRKHelper.h", "ode/OdeStepMappingEuler.h", "ode/ExtrapolatorStepSequenceHarmonic.h", "ode/ExtrapolatorStepSequenceRomberg.h", "ode/ExtrapolatorStepSequenceBulirsch.h"],
     [("stages", P + "ode/ExplicitRKHelper.h compute"), ("coefficients", P + "ode/OdeSolverDOPRI78.h"), ("Aitken-Neville extrapolation", P + "ode/OdeSolverExtrapolator.h doStep"), ("W matrix and its cache", P + "ode/OdeSolverRosenbrock_W_base.h updateW"), ("equation of the implicit method", P + "ode/OdeStepMappingEuler.h map")],
     observe=["arguments of the ODE right hand side", "argument of the error norm", "initialTime()/initialState()"],
     note="""Seeded search over histories. For explicit methods the simulated system returns another unit vector at every evaluation, so the coefficients of the step actually made are read off and all order conditions up to order 8 are evaluated (1e-9); implicit methods are compared with a dense reference implementation (1e-5) or with their equation (1e-8).""")

prop("C19", "Jacobians and Newton descent directions are what they claim to be",
     """A Jacobian computed by either provider (default, sparse) consists of the derivatives of the mapping at the given point (to the accuracy of finite differences), for any sparsity pattern, with the elements dropped by the trimmer in use and no others (width w keeps elements less than w off the diagonal, threshold keeps the diagonal and elements not less than the given fraction of the largest one, zero keeps all),
     and takes at most one evaluation of the mapping more than there are variables; the descent direction solves the linear system with the Jacobian shown to the observers and the negative residual. The Jacobian is recomputed exactly when due: in every iteration (simple), after a hard reset only (const, broyden, fake-broyden, hart), or at the beginning of a solution after a hard reset or a failure (lazy-fake-broyden); refresh observers are told at the start and at the end; in between it is unchanged (const), or updated by the last step: broyden by the Broyden formula, fake-broyden by the same within the nonzero elements, hart so that the secant condition holds; lazy-fake-broyden collects such updates, and applies them only at the beginning of a solution if the previous one has taken more than lazy_iterations iterations, and steps of different solutions are never mixed in an update. An exception of the mapping leaves the computation as if it had not been tried; after a hard reset nothing is left of earlier equations, values and non-finite elements.""",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "Every mapping and sparsity pattern, every sequence of points, resets, outcomes, replacements of equations and trimmers, exceptions and non-finite values at any evaluation.",
     TESTS + "Stale or mixed-up Jacobians show only in particular sequences of resets and updates, mostly as slower convergence.",
     DDIRS + ["alg/DefaultJacobianProvider.h", "alg/SparseJacobianProvider.h", "alg/SparseJacobianCalculator.h", "alg/computeJacobian.h", "alg/JacobianWidthBasedTrimmer.h", "alg/JacobianThresholdBasedTrimmer.h", "lu/LUFactorizer.h", "lu/util.h"],
     [("grouping of columns", P + "alg/SparseJacobianCalculator.h"), ("validity of the sparse layout", P + "alg/SparseJacobianProvider.h computeJacobian"), ("updates", P + "alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h computeDescentDirection"), ("laziness", P + "alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h reportSuccess")],
     observe=["jacobianObservers, jacobianRefreshObservers, ddirPostObservers", "calls of the mapping"],
     note="""Seeded search over sequences of up to 5 solutions of up to 6 iterations for up to 9 equations; Jacobians are compared with analytic derivatives (1e-4) and with a dense model of the updates (1e-7). Updates with a zero step are not covered.""")

prop("C11", "A configuration holds what was set; a failed change leaves it as it was",
     """Setting a parameter of a configuration (at any depth, by dotted path or list of names, as text or number) makes that parameter, and nothing else, have the given value; numbers come back bit for bit; setting a component replaces its nested parameters by the defaults of the new type; an optional component may be set to nothing; the components the configuration provides, and the solvers it yields, have exactly the values told; two configurations with the same values yield the same results, whatever was set, in which order, and whatever failed before.
     An unknown path, a path through a plain value, an empty path item, text that is not a number, a number out of range, and an unknown type, mode or boolean are refused by an exception which leaves all values as they were; if a component throws, or memory allocation fails, in the course of a change or while parameters are read, then the exception comes out, all other values are as before, and the value being set is either the old or the new one. Help never throws, marks the current type of a component, and says so if it is not available, and using a configuration does not change it.""",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "Every sequence of valid and invalid changes and reads over the whole parameter tree of OdeSolverConfiguration, with exceptions of components in their constructors, setters and getters, and allocation failures.",
     "The tests set a few parameters once. Effects of failed changes, and of changes of types of nested components, depend on the history.",
     ["infra/ComponentConfiguration.h", "infra/OptionalParameters.h", "infra/Factory.h", "ode/OdeSolverConfiguration.h", "ode/SpecifiedOdeInitState.h", "ode/interfaces/OdeSolver.h", "alg/interfaces/NewtonSolverInterface.h", "util/lex_idnum.h"],
     [("cache of parameters and its invalidation", P + "infra/ComponentConfiguration.h setValuePriv"), ("conversion of values", P + "infra/OptionalParameters.h Value"), ("re-creation of components", P + "ode/OdeSolverConfiguration.h ParameterProvider::setParameters")],
     observe=["parameters(), value(), helpOnValue()", "components of the parameter provider", "apply() and steps of the solver"],
     note="Seeded search over histories of up to 10 changes; the whole tree is compared with a reference model after each, results of solvers with those of a configuration built anew in another order. Components that may not be absent are not removed.")

OUTF = ["ode/ode_solver_output.h", "ode/OdeSolverConfiguration.h", "ode/OdeVarNameGenerator.h"]
prop("C12", "Outputs tell the true history, and output errors never go unnoticed",
     """What an output option of solveOde writes to a file or to the console is exactly the history of the solution: the solution outputs hold the initial state and every accepted step due according to the output timing (every step if it is zero), in order and with the values of time and variables the solver had, to 16 significant digits in files; the columnwise output holds at most the given number of columns; the general output holds every attempt due, or truncated, with its number, time, step size, error, acceptance, change of step size and the event, and every Newton iteration.
     Outputs and their failures never change the solution: a file that cannot be opened is reported by an exception before the first step, any other error of the disk (full disk, write error, error on close) by an exception at the end, with what precedes the error in the file being right, while short and interrupted writes have no visible effect; an allocation failure never makes an output incomplete without an exception.
     If the solution is aborted by an exception, the same exception comes out of solveOde and the outputs are complete up to that moment; in any case the files are closed and nothing is written by later steps of the solver, and format settings of the console are as before.""",
     ["fault_sequences", "histories", "configurations"],
     "Every solver, system, combination of up to three outputs with any limits and timing; every failing, short or interrupted disk operation; exceptions of the system at any callback; repeated runs.",
     "No test covers outputs. Disk errors at a particular write, and the state of the buffers at that moment, cannot be produced by a test with a real disk.",
     OUTF, [("output due", P + "ode/ode_solver_output.h outputNow"), ("errors reported and file closed", P + "ode/ode_solver_output.h finish"), ("finalization", P + "ode/OdeSolverConfiguration.h solveOde")],
     observe=["bytes reaching the disk and the console", "exceptions of solveOde", "initialTime()/initialState()"],
     note="""Seeded search over a simulated disk below std::ofstream. Runs in which output timing depends on round-off are discarded. After a transient write error the content is not compared, because the standard library writes its buffer again; errors of the console are not reported by design.""")

prop("C13", "Statistics agree with what really happened",
     """The statistics written at the end of a solution agree with the history: total, rejected, truncated steps (attempts) and changes of step size with their percentages, average size of accepted steps, numbers of evaluations of the ODE right hand side in total, for refreshing the Jacobian and otherwise, and the numbers of timed evaluations and Jacobian refreshes.
     This holds whatever the clocks do, for repeated solutions (each counted from zero), and for solutions aborted by an exception at any point, in which case the statistics tell about what had been done until then.
     Statistics never influence the solution.""",
     ["histories", "fault_sequences", "configurations"],
     "Every solver, system, history of accepted, rejected and truncated steps, exceptions at any callback, clock behaviours, disk faults, repeated runs.",
     "No test covers statistics; counts go wrong only for particular histories (rejections, events, failures inside a Jacobian refresh, a second run).",
     OUTF + ["timing/TimingStats.h"], [("counting", P + "ode/ode_solver_output.h OdeSolverStatisticsOutput::D")],
     observe=["text of the statistics"],
     note="Seeded search; counts are kept independently by observers of the simulator. Times themselves are not compared (see C08).")

prop("C18", "Running out of memory in a step does not corrupt the solver",
     """If a memory allocation fails while an ODE solver makes a step or is given an initial state, a system or options, std::bad_alloc comes out (or the operation succeeds), and the solver is not damaged: after a failed step the current time and state are those before the step, or those after it.
     Repeating the operation when there is memory succeeds, and the solution continues exactly as if memory had been sufficient all the time (bitwise; to the accuracy of the Newton solver, as far as it converges, where quasi-Newton updates make results history-dependent), whatever number of failures there were before.""",
     ["fault_sequences", "configurations", "inputs"],
     "Every allocation made in every step and setting of the initial state, every solver and option set, every system, several failures in a row.",
     TESTS + "Allocation failures at a particular allocation cannot be produced without control of the allocator.",
     SOLVERS + ["ode/ExplicitRKHelper.h", "la/VectorTemplate.h", "lu/LUFactorizer.h", "alg/NewtonIterationPerformerImpl.h"],
     [("work arrays are created before they are used", P + "ode/OdeSolverExplicitRK.h initStep"), ("state committed last", P + "ode/OdeSolverExplicitEmbeddedRK.h doStep"), ("initialization of the event controller", P + "ode/LinearOdeEventController.h init")],
     observe=["initialTime()/initialState()"],
     note="""Seeded search; the allocations of every step are counted in a twin, so that failures hit all of them. Allocations in user code (the system, observers) are excluded; creation and configuration of solvers is covered by C11.""")

prop("C15", "solveOde makes the whole solution and gives every output its start and end",
     """solveOde makes steps of the configured solver until the given time has elapsed (at least one step, none that starts after the end), with exactly the result of making these steps by hand, and leaves the reference solver alone; before that, applying the configuration gives the solver and the reference solver the configured system and initial state, and a missing solver or system or an initial state of wrong size is refused by an exception.
     Every configured output is started exactly once, in the order statistics, console, file, before the first step, sees every attempt, and is finished exactly once after the last step, whatever fails in between - the system, an observer, the start, a step or the end of any output, or a memory allocation in applying the configuration; if an output cannot be started no step is made and those started are finished.
     The exception that comes out is the one thrown (that of a step is not replaced by one of a failing end of an output), nothing remains attached to the solver afterwards, and the next call works as the first one.""",
     ["fault_sequences", "configurations", "histories"],
     "Every solver, system, duration (including zero and negative), set of outputs, and every combination of failures of the system and of starts, steps and ends of outputs over repeated calls.",
     "No test calls solveOde; the combinations of failing steps and failing outputs need exceptions at chosen points.",
     ["ode/OdeSolverConfiguration.h", "ode/interfaces/OdeSolverOutputOption.h", "ode/interfaces/OdeInitState.h", "ode/SpecifiedOdeInitState.h"],
     [("solution loop", P + "ode/OdeSolverConfiguration.h solveOde"), ("start and end of outputs", P + "ode/OdeSolverConfiguration.h initOdeOutput, finalizeOdeOutput"), ("apply", P + "ode/OdeSolverConfiguration.h apply")],
     observe=["beforeFirstStep/afterSolve of outputs", "exceptions of solveOde and apply", "initialTime()/initialState() of solvers"],
     note="""Seeded search; outputs are played by the simulator and record their life cycle, solutions are compared bitwise with a twin stepped by hand. Up to 3 calls and 40 steps.""")

prop("C16", "Richardson error estimation reports the errors of the steps really made",
     """For every step of the given size until the given time has elapsed, the estimate of the error at the end of the step is the difference of the result of two steps of half the size and of one step, both from the same time and state and without error control, times 2^p/(2^p-1) for a method of order p; the estimation continues from the result of the half steps, and steps with events are skipped.
     Observers are told exactly these estimates with the time and size of the step, and the statistics returned (number of samples, maximum, sum, sum of squares, mean and mean square deviation of absolute values), as well as statistics of numbers and sums of statistics, agree with the samples.
     An exception of the system or of an observer comes out, with the estimates told until then being right; nothing remains attached to the solver, and a repeated estimation gives the right result.""",
     ["fault_sequences", "configurations", "inputs", "histories"],
     "Every solver and option set, every system with and without events, every step size and duration, exceptions at any callback, repeated estimations.",
     "No test covers error estimation; skipping of steps with events and repetition after failures depend on the history.",
     ["ode/util/RichardsonErrorCalculator.h", "ode/util/ErrorStats.h"], [("two half steps against one", P + "ode/util/RichardsonErrorCalculator.h calculateError"), ("statistics", P + "ode/util/ErrorStats.h")],
     observe=["stepObservers", "ErrorStats"],
     note="""Seeded search against an independent calculation through the public interface of a twin solver (relative 1e-11, absolute 1e-12). Estimations for which the library refuses a step, or which are not finite, are discarded.""")

prop("C20", "Equations seen through adapters are the same equations",
     """An equation seen through adapters - narrowing (some unknowns are kept at given values, some equations are left out), reordering of unknowns and equations, scaling by a diagonal (normalization) - combined to any depth has exactly the size, the identifiers and the values that the wrapped equation has for the corresponding argument, conversions of vectors by an adapter are inverse to each other, and observers of the scaling adapter are told every evaluation once; normalization at a point gives the scaling that makes the diagonal elements of the Jacobian there 1 in absolute value.
     This holds after any sequence of changes of narrowing, ordering, scaling and of the wrapped equation, and of failures: an invalid index, a zero diagonal element, an exception or a non-finite value of the equation, an exception of an observer, and a failed memory allocation come out as exceptions (or values) and leave the adapter either as it was or completely changed.
     What the Newton solver finds for the adapted equation solves the wrapped one: the equations kept are satisfied to the tolerance with the unknowns kept at their values, and a regular linear equation is solved through adapters.""",
     ["histories", "fault_sequences", "inputs", "configurations"],
     "Every equation, every stack of adapters and indices (also unordered and repeated), every sequence of changes and failures at any evaluation or allocation.",
     "No test covers adapters; half-made changes need failures at particular places.",
     ["alg/VectorNarrowingMapping.h", "alg/VectorReorderingMapping.h", "alg/MappingNormalizer.h", "alg/DiagonalMapping.h", "alg/interfaces/VectorBijectiveMapping.h", "alg/computeJacobian.h", "alg/NewtonSolver.h"],
     [("widening and narrowing", P + "alg/VectorNarrowingMapping.h map"), ("permutation", P + "alg/VectorReorderingMapping.h map"), ("scaling", P + "alg/MappingNormalizer.h normalize")],
     observe=["map(), inputSize(), inputIds()", "observers of the mapping", "solutions of the Newton solver"],
     note="Seeded search; stacks of up to 3 adapters, equations of up to 7 unknowns, up to 9 operations; values are compared bitwise with a model of the stack.")

prop("C17", "A type registry creates what was registered in it, and nothing else",
     """Each interface has a registry of its own that holds exactly the types and generators registered for it: creation by identifier calls the generator registered under exactly this identifier, once, and returns the very object, or the exception or null pointer, it gives, and keeps no reference to the object; an unknown identifier is refused by an exception that names it, without anything being created; the types told by lists, by help and by values of parameters are exactly those registered; a registered type and its objects tell the identifier it was registered with last, an object of any other type tells none, and a value made from an object yields an object of the same type with the same parameters.
     This holds for any history of registrations and creations, also by generators that create other objects or register other types in the course of a creation, and also in a process that has just started, in which storage per type is found empty at its first use, never moves, and is different for different pairs of types.
     A failed memory allocation comes out as an exception and leaves every registry and identifier as it was, so that the operation may be repeated; a creation that fails leaves no object.""",
     ["histories", "fault_sequences", "inputs"],
     "Every history of registrations, creations and first uses, every behaviour of generators and constructors, every allocation that may fail.",
     "Registration normally happens before main(), where no test looks; half-made registrations need an allocation to fail at a particular place, re-entrant generators a particular nesting.",
     ["infra/Factory.h", "infra/PerTypeStorage.h", "infra/OptionalParameters.h"],
     [("registry", P + "infra/Factory.h Factory::registerType, newInstance"), ("identifiers", P + "infra/Factory.h FactoryMixin::Registrator"), ("storage per type", P + "infra/PerTypeStorage.h value")],
     observe=["newInstance(), registeredTypes(), isTypeRegistered()", "staticTypeId(), TypeIdGetter::typeId()", "OptionalParameters::Value of objects, appendNestedHelp()", "PerTypeStorage::value()"],
     note="Seeded search against a model of two registries; 16 operations, generators nested to depth 2; first use of the storage in forked processes with a script drawn before. Registering an identifier twice is a broken precondition and is not done.")

prop("C22", "Vectors and matrices hold what was put into them, and so do their views",
     """After any sequence of operations on vectors and sparse matrices (writing, removing and reading elements, resizing, assignment between all kinds of matrices, sums, differences, products with matrices and vectors, norms, identity) every one of them has exactly the size, the elements and the values of the mathematical object; matrices with fixed elements and the text forms agree with them, copies are independent of their sources, and operands of an operation do not change.
     Windows, scaled and transposed views, also views of views, show the current elements of the matrix or vector behind them and pass changes on to exactly those elements; a view may be assigned to the matrix it shows, and a window to another window of the same matrix that does not overlap it.
     An invalid index of a vector and a missing element of a matrix with fixed elements are refused by exceptions; a memory allocation that fails leaves the result of an assignment, a product or a copy either complete or as it was, any other matrix being changed with only elements within its size, each as before, as it should be, or zero, and all other objects as they were.""",
     ["histories", "fault_sequences", "inputs"],
     "Every sequence of operations on any number of vectors and matrices of any size, every view, every value including NaN and infinity, every allocation that may fail.",
     "The repository's tests check the construction of vectors; half-made changes need an allocation to fail at a particular place, and confusion of elements depends on the history and on aliasing.",
     ["la/VectorTemplate.h", "la/SparseMatrixTemplate.h"],
     [("elements and views of matrices", P + "la/SparseMatrixTemplate.h SparseMatrixData, SparseMatrixFastData, SparseMatrixProxy"), ("algebra", P + "la/SparseMatrixTemplate.h SparseMatrixTemplate"), ("vectors", P + "la/VectorTemplate.h")],
     observe=["get(), hasIndex(), checkedGet(), iteration, size(), count()", "operator[] and iteration of vectors", "text output"],
     note="Seeded search against a dense/ordered-map model, bitwise (values are short dyadic numbers, so that the order of summation does not matter). Matrices up to 5x5, 16 operations, views of views.")

prop("C21", "The bundled test models are the systems they are described to be",
     """Under every solver, each bundled test model (linear oscillator, chain of nonlinear oscillators, stiff equation, sliding point, bouncing ball) has, at every evaluation, exactly the derivatives given by its description and its current parameters, announces every evaluation to observers before and after it with its argument and value, and keeps the parameters set, refusing an unknown kind of friction by an exception; every step agrees with an independent integration of the described equations up to the error of the method.
     The ball is never below the plane; each impact reverses its velocity and multiplies it by the recovery factor, or makes the ball rest on the plane if the speed is below the threshold or it hits the plane again without having left it, and a ball at rest stays at rest until it is put elsewhere by a new initial state, whereupon it falls as a new one.
     Exceptions thrown by observers, in switching, and at any other point of a step, once or several times in a row, change none of this: the repeated step gives the same solution as without them.""",
     ["fault_sequences", "histories", "configurations", "inputs"],
     "Every solver and option set, every model with any parameters, repeated initial states, every point of a step where user code runs, several failures in a row.",
     "No test runs a model; the state of the ball that is kept in the model (not in the state vector) survives failed steps and new initial states, so errors depend on the history.",
     ["ode/test_models/BouncingBall.h", "ode/test_models/CoupledNonlinearOscillators.h", "ode/test_models/Oscillator.h", "ode/test_models/SlidingPoint.h", "ode/test_models/StiffOde1D.h"],
     [("impact", P + "ode/test_models/BouncingBall.h switchPhaseState"), ("derivatives", P + "ode/test_models/CoupledNonlinearOscillators.h rhs"), ("friction", P + "ode/test_models/SlidingPoint.h frictionForce")],
     observe=["odeRhsPreObservers, odeRhsPostObservers", "initialTime()/initialState()", "OdeRhs::switchPhaseState"],
     note="Seeded search; derivatives are compared with an independent formula (1e-10), steps with another integration, recovery with a twin (1e-12; 1e-6 for quasi-Newton methods). Up to 3 initial states and 60 steps each.")

prop("C23", "A Newton solver put together in any order works as one built anew",
     """After any sequence of replacement of components of a Newton solver (mapping, iteration performer, descent direction, Jacobian provider and trimmer, line search, error estimator, regularization strategy, limit of iterations), one by one or by setting any subset of parameters, its own current parameters included, the solver consists of exactly the components and parameters set last and reports them: all components use the mapping set last, the regularization strategy refers to the current error estimator and descent direction, and a component set without parts of its own keeps those of its predecessor (Jacobian provider of a descent direction; mapping, error estimator, descent direction and line search of an iteration performer).
     A solution from a new initial guess is then, bit for bit and evaluation for evaluation, that of a solver built anew from the same components, also when evaluations of the mapping fail; the same holds for the steps of the implicit Euler solver, whose observers are told of each iteration and Jacobian refresh exactly once, and never by a Newton solver that has been replaced or whose ODE solver is gone.
     A replacement that ends in a failed memory allocation can be repeated with the same effect.""",
     ["histories", "fault_sequences", "configurations"],
     "Every sequence of replacements and solutions, every combination of components and parameters, failures of the mapping, every allocation that may fail.",
     "No test replaces a component of a Newton solver; what goes wrong depends on the order in which components have been set, or needs a replacement interrupted half-way.",
     ["alg/interfaces/NewtonSolverInterface.h", "alg/interfaces/NewtonDescentDirection.h", "alg/interfaces/JacobianProvider.h", "alg/interfaces/NewtonIterationPerformer.h", "ode/OdeSolverImplicitEuler.h", "infra/def_prop_class.h"],
     [("replacement of components", P + "alg/interfaces/NewtonSolverInterface.h setComponent, setParameters"), ("mapping passed to parts", P + "alg/interfaces/NewtonDescentDirection.h"), ("notifications of the current Newton solver", P + "ode/OdeSolverImplicitEuler.h")],
     observe=["getters of components, parameters()", "result of run(), iteration observers, calls of the mapping", "initialState() of the implicit Euler solver and its observers"],
     note="Seeded search against a model of what the solver consists of and a twin assembled in one fixed order; up to 10 replacements, failing allocations in a quarter of them.")
