#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the one place where the properties are stated."""
import json

QP = ["source/qp.cc", "include/mini_opt/qp.hpp", "include/mini_opt/structs.hpp"]
NLS = ["source/nonlinear.cc", "include/mini_opt/nonlinear.hpp", "include/mini_opt/structs.hpp"]
SOLVES = "The existing tests solve a handful of fixed problems and look at the final point with loose tolerances"


def P(id, title, statement, over, text, why, files, mech, observe, level_note, state=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=level_note, state=state or [])


PROPS = [
    P("C01", "Interior point QP solver claims convergence exactly when it converged",
      "The interior point solver reports that its tolerance is satisfied if and only if, after the last iteration it ran, the norms of all perturbed KKT residuals "
      "(stationarity, equality, inequality, complementarity relative to the barrier value) are below the requested tolerance and the mean complementarity is below its own tolerance. "
      "It stops at the first iteration where this holds, and otherwise reports the iteration limit after exactly that many iterations. "
      "A problem without a feasible point is therefore never reported as solved.",
      ["inputs", "configurations"], "every QP (convex, with or without equalities, bounds, duplicate or infeasible bounds), every parameter set, strategy and start",
      SOLVES + "; none recomputes the residuals from the problem data or presents an infeasible problem.",
      QP, [("Solve", "source/qp.cc QPInteriorPointSolver::Solve"), ("ComputeErrors", "source/qp.cc"), ("EvaluateKKTConditions", "source/qp.cc")],
      ["QPInteriorPointSolverOutputs::termination_state", "QPInteriorPointSolver::variables()"],
      "residuals recomputed in extended precision from the problem data; verdicts within rounding error are accepted either way"),
    P("C02", "Well-posed convex QPs are solved to their minimizer",
      "A strictly convex QP with a strictly feasible point and only inequality constraints is solved to its unique minimizer within a moderate number of iterations by both simple barrier strategies, from either built-in initial guess, apart from isolated instances (about one in ten million diverges). "
      "A QP without inequalities is solved by a single full Newton step, including its multipliers. "
      "With equalities next to inequalities, or with the predictor-corrector strategy, nearly all such problems are solved.",
      ["inputs", "configurations"], "strictly convex QPs with a strictly feasible point, up to 36 variables and 75 bounds",
      "The tests solve a few chosen and 20-odd random problems with one parameter set each; they cannot say the solver does not fail on other constraint patterns, scales and strategies.",
      QP, [("Iterate", "source/qp.cc QPInteriorPointSolver::Iterate"), ("SolveForUpdate", "source/qp.cc"), ("ComputeInitialGuess", "source/qp.cc")],
      ["termination_state", "x_block() y_block() z_block() s_block()"],
      "minimizers known by construction or from an independent dense solve; a failed instance is tolerated only if most instances close to it are solved; for equality+inequality problems and the predictor-corrector a rate is required"),
    P("C03", "Interior point iterates stay strictly inside, steps obey the boundary rule",
      "Starting from any point with strictly positive slacks and inequality multipliers, both remain strictly positive after every iteration, and every reported primal and dual step length lies in (0, 1]. "
      "A step shorter than the full one is taken only when the full step would use up more than 99.5% of some slack (primal) or multiplier (dual), and then the closest one keeps at least 0.5% of its value; without inequalities the full step is taken.",
      ["inputs", "histories"], "every iteration of every run, any positive start over eight orders of magnitude",
      "Tests look at the end of a run; staying inside is an invariant of every intermediate iterate, and the boundary cases need specific ratios.",
      QP, [("ComputeAlpha", "source/qp.cc"), ("Iterate", "source/qp.cc")],
      ["s_block() z_block() after each iteration", "IPIterationOutputs::alpha"],
      "known finding: a full step that leaves less than 0.5% of a value (but stays positive) is not shortened",
      [dict(name="s, z", meaning="slacks and multipliers of the inequalities", where="source/qp.cc variables_")]),
    P("C04", "Each interior point step is the Newton step of the full KKT system",
      "In every iteration, the change of the variables, slacks and multipliers equals the Newton step of the complete unreduced perturbed KKT system at the current barrier value, scaled by the reported primal (variables, slacks) and dual (multipliers) step lengths. "
      "With the predictor-corrector strategy the direction includes the second order correction of an affine probe, and the reported probe step lengths, affine complementarity and barrier value are those of Mehrotra's method.",
      ["inputs", "histories"], "every iteration from any strictly interior point of any convex QP and any strategy",
      "The tests build the full system only for fixed seeds of small problems and compare one iteration; the elimination, update and combination with step lengths can be wrong for other shapes, and the predictor-corrector is only tested to converge.",
      QP, [("ComputeLDLT / SolveForUpdate", "source/qp.cc"), ("ComputePredictorCorrectorMuAffine", "source/qp.cc"), ("Iterate", "source/qp.cc")],
      ["variables() before and after an iteration", "IPIterationOutputs"],
      "Newton step from an independent unreduced system in extended precision, componentwise tolerance from its condition number"),
    P("C05", "Initial guesses and the barrier schedule follow the parameters",
      "A run without a user supplied start begins at zero, or at the minimizer subject to only the equalities, moved into the bounds; slacks equal their constraint values (with a small floor), multipliers of inequalities are the reciprocal slacks and multipliers of equalities zero. "
      "The barrier value of the first iteration is the configured one or the initial complementarity, and later ones follow the chosen strategy: the decrease factor times the current mean complementarity, the factor times the previous barrier value, or the predictor-corrector rule. "
      "If decreasing only on small errors is requested, the value is kept until the residuals are below it.",
      ["inputs", "configurations", "histories"], "every QP and every combination of guess, strategy and schedule parameters",
      "No test inspects the first iterate or the sequence of barrier values; they only see that the end result is reached, which a wrong schedule usually still allows.",
      QP, [("ComputeInitialGuess", "source/qp.cc"), ("Solve (mu update)", "source/qp.cc")],
      ["IPIterationOutputs::mu", "kkt_initial of the first iteration", "variables()"],
      "multipliers of near-zero slacks are not compared (rounding is amplified)"),
    P("C06", "The interior point log and the multiplier summary describe the run",
      "For each iteration the log holds the norms of the four KKT residuals before and after it, and they equal the norms recomputed from the problem data at the iterates; residuals of absent constraints are zero. "
      "The summary of equality multipliers is present exactly when there are equalities and holds their minimum and largest absolute value. "
      "The accessors for variables, slacks and multipliers expose (and, when mutable, modify) disjoint consecutive parts of the solver state.",
      ["inputs", "histories"], "every iteration of every run, any start",
      "Tests never compare the logged values with anything; a log that is off by one iteration or mixes two residuals passes.",
      QP, [("ComputeErrors", "source/qp.cc"), ("ComputeLagrangeMultiplierSummary", "source/qp.cc"), ("block accessors", "source/qp.cc")],
      ["QPInteriorPointIteration", "QPLagrangeMultipliers", "x_block() s_block() y_block() z_block()"],
      "extended precision recomputation"),
    P("C07", "The null-space solver returns the constrained minimizer or says why not",
      "For an equality constrained QP whose Hessian is positive definite along the constraints, the null-space solver reports success and its result satisfies the constraints and has zero gradient along them, whatever the number and rank of the constraint rows, even when the Hessian is indefinite across the constraints. "
      "If the Hessian has a direction of negative or zero curvature along the constraints it reports that it is not positive definite. "
      "Results do not depend on problems solved before with the same solver.",
      ["inputs", "histories"], "consistent equality systems of any rank incl. redundant rows, Hessians of any inertia",
      "Two fixed problems and 100 seeds of full-rank ones are tested; rank deficiency, full determination and indefiniteness across the constraints are not.",
      QP, [("QPNullSpaceSolver::Solve", "source/qp.cc")], ["QPNullSpaceTerminationState", "QPNullSpaceSolver::variables()"],
      "null-space basis from independent long double Gram-Schmidt; near-singular reduced Hessians and nearly dependent rows are outside"),
    P("C08", "Different routes to the minimizer of a QP agree",
      "For a strictly convex QP all routes that report convergence give the same minimizer up to their tolerances: the null-space and the interior point solver, every barrier strategy, initial guess and initial barrier value. "
      "Equivalent formulations (constraints or equations multiplied by a factor, scaled objective, rescaled or shifted variables, redundant constraints, bounds that do not bind) give the correspondingly transformed minimizer.",
      ["inputs", "configurations"], "every strictly convex QP and pair of routes",
      "Agreement is a relation between runs; the tests compare each solver with a few known answers only.",
      QP, [("QPNullSpaceSolver::Solve", "source/qp.cc"), ("QPInteriorPointSolver::Solve", "source/qp.cc")], ["variables()"],
      "distance bounds follow from the curvature and the tolerances of both runs"),
    P("C09", "QP runs are functions of problem and parameters only",
      "Solving the same QP with the same parameters and start gives bit-identical results and logs, on new solver objects or reused ones, whatever was solved before; a run with a lower iteration limit is a prefix of a longer one. "
      "Only the lower triangle of the Hessian is read, by both solvers and the eigenvalue summary, the problem is never modified, and renaming variables or reordering constraints only renames the results. "
      "The eigenvalue summary gives the smallest, largest and smallest absolute eigenvalue of the Hessian.",
      ["inputs", "histories"], "every sequence of set-ups and solves on one solver object, every problem",
      "Tests create a new solver per problem; leftovers of earlier problems show only in particular sequences of sizes and failures.",
      QP, [("Setup", "source/qp.cc"), ("QP::ComputeEigenvalueStats", "source/qp.cc")], ["variables()", "QPInteriorPointSolverOutputs", "QPEigenvalues"],
      "bitwise comparison; renamed problems are compared to 1e-6"),
    P("C10", "Linear inequality constraints are evaluated, clamped and shifted exactly",
      "A linear inequality a*x+b >= 0 is feasible at exactly the values that satisfy it (the bound included); clamping returns the nearest feasible value and leaves feasible values alone; shifting to a point gives a constraint on the increment that accepts exactly the increments whose sum is feasible. "
      "The comparison notation for a variable builds the constraint it reads as. "
      "A constraint on a variable outside the problem, negative indices included, is rejected before any memory is accessed.",
      ["inputs"], "coefficients of either sign over 24 orders of magnitude, values at, next to and away from the bound, any index",
      "The tests use a few constants with unit coefficients.",
      ["include/mini_opt/qp.hpp", "source/qp.cc"], [("LinearInequalityConstraint, Var", "include/mini_opt/qp.hpp"), ("Setup index check", "source/qp.cc")], ["IsFeasible, ClampX, ShiftTo"],
      "long double oracle; within one rounding error of a bound either verdict is accepted for non-unit coefficients"),
    P("C11", "Residuals add exactly their contribution, whatever their index order",
      "Adding a residual to a quadratic system adds J'J (lower triangle only) and J'r of its Jacobian expanded to all variables and returns half its squared norm, leaving every other entry as it was, for indices in any order (a variable listed twice gets the sum of both derivatives), fixed or dynamic size and any way of giving the indices. "
      "Its error vector, Jacobian and squared error agree with the user's function evaluated at the selected variables. "
      "An index outside the variables is rejected before the system is changed, outputs whose sizes do not fit are rejected. The function is given a derivative of its full size.",
      ["inputs"], "residuals of 1-4 rows on 0-7 of up to 20 variables, any order of indices, also repeated ones",
      "Tests use two or three fixed index patterns.",
      ["include/mini_opt/residual.hpp", "source/residual.cc"], [("Model::UpdateHessian, UpdateJacobian, ErrorVector", "include/mini_opt/residual.hpp"), ("QuadraticError", "source/residual.cc")],
      ["Residual::UpdateHessian, UpdateJacobian, ErrorVector, QuadraticError"], "reference: dense Jacobian expanded to all variables"),
    P("C12", "Each nonlinear iteration solves the damped linearization at the current point",
      "In every iteration the logged cost (half the squared residuals), equality error (L1 norm), slopes along the search direction and, if requested, eigenvalues of the damped Gauss-Newton Hessian are those of the problem at the current variables. "
      "The search direction is the minimizer of that damped quadratic model subject to the linearized equalities and the bounds shifted to the current variables, whenever the inner solver reports success. "
      "Problems with only equalities use the null-space solver, all others the interior point solver.",
      ["inputs", "histories"], "every iteration of every run on problems with any mix of costs, equalities and bounds, at any damping",
      "The library's nonlinear tests are not among the tests that build here, and end points do not reveal a wrong linearization that still descends.",
      NLS, [("LinearizeAndFillQP", "source/nonlinear.cc"), ("ComputeStepDirection", "source/nonlinear.cc"), ("ComputeQPCostDerivative", "source/nonlinear.cc")],
      ["NLSIteration", "dx handed to the retraction operator"],
      "linearization recomputed from the generated functions in long double, bounded directions from all active sets"),
    P("C13", "Steps are taken only with sufficient decrease of the merit function",
      "The variables change in an iteration only when it reports a successful search, and then to the last point tried, where the merit function (cost plus penalty times equality error) is below its old value by at least a fixed small fraction (1e-4) of the decrease its slope predicts. "
      "In every other iteration they stay exactly where they were. "
      "Without equalities the cost therefore never increases from one iteration to the next nor from start to result.",
      ["inputs", "histories"], "every iteration of every run, with undefined regions, rank deficiency, strong nonlinearity and large damping",
      "No runnable test covers the nonlinear solver; monotonicity is a property of all iterations.",
      NLS, [("SelectStepSize", "source/nonlinear.cc"), ("UpdateLambdaAndCheckExitConditions", "source/nonlinear.cc")], ["variables() in the callback", "trial points seen by the retraction operator"],
      "merit values and slopes recomputed from the problem; rounding allowance relative to the merit value"),
    P("C14", "The line search tries the prescribed steps and stops for the reported reason",
      "A line search first tries the full step and then the steps its strategy prescribes (a constant factor, or the minimum of the quadratic, later cubic, interpolation of the merit function), always positive and decreasing, and stops at the first one with sufficient decrease. "
      "Every trial is logged with its step length and the true errors there, and there are at most one more trials than the configured limit. "
      "The reported result (success, limit, first order satisfied, positive slope, non-finite cost, invalid step) is the one that applies.",
      ["inputs", "histories"], "every search of every run, both strategies, any limit",
      "No runnable test covers it; interpolation errors only make searches slower, not wrong in the end.",
      NLS, [("SelectStepSize", "source/nonlinear.cc"), ("ComputeAlphaPolynomialApproximation", "source/nonlinear.cc"), ("QuadraticApproxMinimum, CubicApproxCoeffs, CubicApproxMinimum", "source/nonlinear.cc")],
      ["NLSIteration::line_search_steps, step_result", "calls of the retraction operator"],
      "interpolation recomputed in long double with error ranges; ill-conditioned interpolations only have to give a decreasing positive step"),
    P("C15", "The nonlinear termination state is true and the log describes the run",
      "The nonlinear solver ends with a satisfied tolerance exactly when, in its last iteration, the errors are below the absolute tolerance, the merit function decreased by less than the relative tolerance, or both slopes are below the first order tolerance; it ends at the first iteration where an exit applies, otherwise at the iteration limit. "
      "Maximum damping and an indefinite sub-problem are reported only when they occurred. "
      "The log lists every completed iteration in order with the errors at its start.",
      ["inputs", "configurations", "histories"], "every run and every combination of tolerances, including several exits competing",
      "No runnable test covers the nonlinear solver's exits; tests of end points cannot distinguish reasons.",
      NLS, [("UpdateLambdaAndCheckExitConditions", "source/nonlinear.cc"), ("Solve", "source/nonlinear.cc")], ["NLSSolverOutputs", "exit callback"],
      "quantities within rounding of their tolerance may be decided either way"),
    P("C16", "Damping follows the documented Levenberg-Marquardt schedule",
      "Damping starts at its initial value; a failed search raises it (to at least the failure value, then tenfold) and enters the restoring state, a successful one multiplies it by the decrease factor of the state (back to normal, never below the minimum). "
      "Once it would exceed its maximum the run ends with that reason and no iteration ever runs outside the limits. "
      "More damping never makes the step longer.",
      ["inputs", "histories", "configurations"], "every history of successful and failed searches, every damping parameter",
      "No runnable test covers it; the schedule depends on rare sequences of failures and recoveries.",
      NLS, [("UpdateLambdaAndCheckExitConditions", "source/nonlinear.cc")], ["NLSIteration::lambda, optimizer_state"], "schedule simulated from the logged search results"),
    P("C17", "Bounds hold at every point the nonlinear solver evaluates",
      "Started from a point that satisfies all bounds, the nonlinear solver with the default update only evaluates and returns points that satisfy them (up to a 1e-9 tolerance per step); from a start outside, a violation never grows and a full step removes it.",
      ["inputs", "histories"], "every trial point of every run with bounds, started inside, on or outside them, with any number of inner iterations",
      "No runnable test covers it; an intermediate point outside a bound is invisible at the end.",
      NLS + ["source/qp.cc"], [("LinearizeAndFillQP (shifted bounds)", "source/nonlinear.cc"), ("ComputeAlpha", "source/qp.cc")], ["trial points seen by the retraction operator"],
      "with equalities present only iterations whose inner problem was solved to tolerance are judged"),
    P("C18", "The equality penalty follows its rule and the direction is a descent direction",
      "The penalty starts at its initial value, never decreases, is constant without equalities, and is raised in an iteration only when the multipliers (or, with only equalities, the model's predicted increase of the cost) require more, to the required value times the configured factor. "
      "With it, the search direction of a solved sub-problem is a descent direction of the merit function.",
      ["inputs", "histories", "configurations"], "every iteration of runs with equalities, with and without bounds",
      "No runnable test covers it; a wrong penalty changes only how fast or where a run ends.",
      NLS, [("SelectPenalty", "source/nonlinear.cc"), ("Solve", "source/nonlinear.cc")], ["NLSIteration::penalty, directional_derivatives"],
      "with bounds, descent is only required from feasible points with converged inner problems"),
    P("C19", "Problems with a known answer are solved",
      "A linear least squares problem of full rank, with or without linear equalities, is solved to its minimizer in at most three iterations, and with bounds to its constrained minimizer. "
      "Standard nonlinear problems with a known answer (mildly nonlinear fits, Rosenbrock-like valleys, projections onto curves, bounded ones) are solved in nearly all cases from random starts. "
      "On problems with only equalities or only bounds the solver returns a result instead of failing with an error.",
      ["inputs", "configurations"], "linear problems of 1-12 variables, families of nonlinear problems with known minimizer and random starts",
      "The library's own nonlinear tests need a dependency that is absent here; they sample few fixed problems.",
      NLS + ["source/qp.cc"], [("Solve", "source/nonlinear.cc")], ["variables()", "termination_state"],
      "for nonlinear families a success rate well below the observed one is required: Gauss-Newton has no global guarantee"),
    P("C20", "Points where the cost is not finite are never accepted",
      "If a cost or equality is NaN or infinite at a trial point, the trial is logged as such, the search ends reporting a non-finite cost and the variables stay where they were. "
      "Variables and result always have finite cost if the start had. "
      "From a start whose cost is not finite the solver does not run or move: it fails with an error or reports an indefinite problem without an iteration.",
      ["inputs", "fault_sequences"], "costs and equalities undefined in a half space, overflowing, undefined at the start",
      "No test uses a function that can fail.",
      NLS, [("SelectStepSize", "source/nonlinear.cc"), ("Errors::ContainsInvalidValues", "include/mini_opt/structs.hpp")], ["NLSIteration", "variables()"], "the Jacobians stay finite"),
    P("C21", "The exit callback and the update operator are used as documented",
      "The exit callback is called once per iteration, after the variables were updated, with the iteration that is then logged; returning true changes nothing, returning false ends the run there with that reason unless the iteration ended it anyway. "
      "A custom update operator is given the accepted variables, the search direction and each step length tried, once per trial, is the only way variables change, and plain addition as operator gives the same run as none.",
      ["inputs", "histories"], "every iteration at which the callback may stop, several operators",
      "No runnable test covers either hook.",
      NLS, [("Solve (user_exit_callback_)", "source/nonlinear.cc"), ("RetractCandidateVars", "source/nonlinear.cc")], ["calls of callback and operator", "variables()"], "bitwise comparison of runs"),
    P("C22", "Nonlinear runs are deterministic and solver objects can be reused",
      "The same problem, parameters and start give bit-identical results and logs, whatever the solver object did before (other parameters, other starts, runs that failed or were stopped), and a run with a lower iteration limit is a prefix of a longer one. "
      "The problem and the guess are not modified, a run may continue from its own result, other solvers may run in between, and evaluating errors changes nothing. Costs and bounds of the problem may change between runs: a run solves the problem as it is then.",
      ["inputs", "histories"], "every history of solves on one object",
      "No runnable test covers it; leftovers of a failed run show only in particular sequences.",
      NLS, [("Solve (state reset)", "source/nonlinear.cc"), ("EvaluateNonlinearErrors", "source/nonlinear.cc")], ["NLSSolverOutputs", "variables()"], "bitwise comparison with a fresh solver"),
    P("C23", "Solver outputs survive JSON serialization, damaged documents are rejected",
      "Reading back what was written gives the same outputs bit for bit, except that NaN and infinities become NaN in text, and the document contains every field under its name with its value. "
      "A document that lacks a field or has a value of the wrong type or an unknown state is rejected with an error, and no document crashes the reader.",
      ["inputs", "fault_sequences"], "every solver output (all states, optional parts, extreme and non-finite values) and every damaged document",
      "No test covers serialization.",
      ["source/serialization.cc", "include/mini_opt/serialization.hpp", "include/mini_opt/structs.hpp"], [("adl_serializer<NLSSolverOutputs>", "source/serialization.cc")], ["to_json / from_json"],
      "unknown state names are outside (the JSON library maps them to the first name)"),
    P("C24", "Reports and counters state exactly what the outputs contain",
      "The text report lists for every iteration its number, state, damping, errors, penalty, slopes, search result and trials, QP outcome and (if present or asked for) eigenvalues and QP iterations, each with the value in the outputs, and ends with the termination state; colour codes appear only when asked for and are always reset. "
      "The counters of QP iterations, trials and failed searches, the totals, maxima and validity of errors and the names of all states agree with the outputs.",
      ["inputs"], "every solver output",
      "No test covers reports or counters.",
      ["source/structs.cc", "include/mini_opt/structs.hpp"], [("ToString", "source/structs.cc"), ("NumQPIterations, NumLineSearchSteps, NumFailedLineSearches", "source/structs.cc")], ["ToString(), operator<<"],
      "report read back token by token"),
    P("C25", "Traces are valid, complete and safe to record concurrently",
      "The trace is a valid JSON document with one complete event per recorded scope, in order of completion, with its name, start and duration in microseconds and its process and thread; scopes left by an exception are not recorded and only the newest 100000 events are kept. "
      "Threads may record, read the trace and run separate solvers at the same time without losing, duplicating or corrupting anything, and scopes may end while the program exits.",
      ["inputs", "histories", "schedules"], "every sequence and interleaving of recording and reading, any event name",
      "Tracing is off in the tests; races need particular interleavings.",
      ["source/tracing.cc", "include/mini_opt/tracing.hpp"], [("trace_collector", "source/tracing.cc"), ("scoped_trace", "source/tracing.cc")], ["get_trace_json()"],
      "thread sanitizer on randomly generated thread programs; schedules are sampled, not enumerated",
      [dict(name="events", meaning="queue of recorded events", where="source/tracing.cc trace_collector_impl")]),
    P("C26", "Malformed problems, parameters and guesses are rejected, valid ones accepted",
      "Null or empty problems, inconsistent dimensions, indices outside the variables, vectors of the wrong size, use without a problem and parameters outside their documented range (NaN included) are rejected with an error before anything is computed or changed, and parameters at the ends of their range are accepted. "
      "After a rejected call a solver works as if the call had not been made.",
      ["inputs", "configurations", "histories"], "every parameter just outside, far outside and at the ends of its range; every mismatch of sizes; any position of a bad index",
      "Tests check two or three such cases.",
      NLS + ["source/qp.cc", "include/mini_opt/residual.hpp"], [("CheckParams", "source/nonlinear.cc, source/qp.cc"), ("Setup", "source/qp.cc")], ["exceptions", "variables()"],
      "runs under the address and undefined behaviour sanitizers"),
    P("C27", "Exceptions of user code and failed allocations leave everything usable",
      "An exception thrown by a user function, the update operator or the exit callback ends the run and reaches the caller unchanged, without further calls of user code; the iterations completed before it are kept and the interrupted one has no effect on the variables. "
      "A failed allocation anywhere in a run ends it with std::bad_alloc (one for the record of a traced scope only drops that record). Afterwards no memory is lost and the same solver objects solve like new ones.",
      ["inputs", "crash points", "histories"], "every call of user code and every allocation of a run may be the one that fails, several times in a row",
      "No test injects a fault; the state left behind depends on the exact point of the failure.",
      NLS + ["source/qp.cc"], [("Solve", "source/nonlinear.cc"), ("SelectStepSize", "source/nonlinear.cc"), ("RetractCandidateVars", "source/nonlinear.cc"), ("Setup / Solve", "source/qp.cc")],
      ["exceptions", "variables()", "outstanding allocations"],
      "built without tracing; one fault at a time",
      [dict(name="variables_", meaning="the accepted variables", where="source/nonlinear.cc ConstrainedNonlinearLeastSquares")]),
    P("C28", "User functions are evaluated only at iterates and trials, never more often",
      "During a run each cost and constraint function is called with derivatives only at the current variables and once per iteration, and without only at the last trial point, once per trial, with exactly the values of the variables it lists, in that order. "
      "Nothing is differentiated after the last iteration, and evaluating the errors calls every function once at the given point, without derivatives.",
      ["inputs", "histories"], "every call of every function in any run",
      "Superfluous calls, or calls at other points (where a function may be undefined), do not change the results that tests look at.",
      NLS + ["include/mini_opt/residual.hpp"], [("LinearizeAndFillQP", "source/nonlinear.cc"), ("EvaluateNonlinearErrors", "source/nonlinear.cc"), ("GatherValues", "include/mini_opt/residual.hpp")],
      ["arguments of user functions"], "points compared bit by bit"),
    P("C29", "Assertions that hold do nothing, failing ones say what, where and why",
      "An assertion whose condition or comparison holds has no effect, evaluating each operand once and never its reason. "
      "One that does not hold (comparisons with NaN included) throws the library's error type, whose message has the condition, file and line, the values and names of both operands, and the reason with its arguments; copies and base class references give the same message.",
      ["inputs"], "every assertion macro, operands of several types with any value, reasons with and without arguments",
      "Tests only count that something is thrown for two inputs.",
      ["include/mini_opt/assertions.hpp"], [("F_ASSERT*", "include/mini_opt/assertions.hpp"), ("format_assert_binary", "include/mini_opt/assertions.hpp")],
      ["exceptions", "what()"], "the layout of the message is not prescribed, only its parts"),
    P("C30", "No valid use touches invalid or uninitialized memory",
      "Solving, reporting and serializing any valid problem, on new and reused solver objects with problems of changing sizes, never accesses memory outside its storage or after its end, has no undefined behaviour and breaks no precondition of the matrix library. "
      "Results do not depend on what fresh memory contains.",
      ["inputs", "histories", "configurations"], "every problem shape, strategy, history of sizes and report option",
      "The tests build without sanitizers and with the checks of the matrix library off, so an access slightly out of range passes.",
      NLS + ["source/qp.cc", "source/structs.cc", "include/mini_opt/residual.hpp"], [("Setup", "source/qp.cc"), ("QPNullSpaceSolver::Solve", "source/qp.cc"), ("EvaluateNonlinearErrors (error_buffer_)", "source/nonlinear.cc")],
      ["sanitizer reports", "results"], "runs under the address and undefined behaviour sanitizers; fresh memory and stack filled with different bytes"),
]


def main():
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open("properties.jsonl", "w") as f:
        for p in PROPS:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
         "notes": "No hooks are needed in /repo: checks use the public API only. spec.py writes this file and properties.jsonl."}
    for p in PROPS:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"] + " --tier thorough",
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": TECH.get(p["id"], "property-based testing: generated cases against an independent oracle, shrinking"),
                            "level": "exploration",
                            "level_note": "random search over generated cases, no proof of absence; " + p["note"]})
    with open("MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


TECH = {
    "C08": "property-based testing: metamorphic and differential relations between generated runs, shrinking",
    "C09": "property-based testing: generated histories of solves, bitwise differential oracle, shrinking",
    "C22": "property-based testing: generated histories of solves, bitwise differential oracle, shrinking",
    "C16": "property-based testing: model of the schedule over generated runs, shrinking",
    "C21": "property-based testing: generated callback faults and recorded operator calls, differential oracle, shrinking",
    "C23": "property-based testing: round trip and reference document over generated outputs, mutation fuzzing of documents under ASan/UBSan",
    "C25": "stateful property-based testing against a list model; generated thread programs under TSan",
    "C27": "property-based testing with fault injection: generated exceptions and allocation failures, differential oracle, shrinking",
    "C30": "property-based testing under ASan/UBSan; differential runs with different memory contents",
    "C26": "property-based testing: generated invalid inputs under ASan/UBSan, shrinking",
}

if __name__ == "__main__":
    main()
