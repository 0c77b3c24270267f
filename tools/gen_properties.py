#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "A 'solved' status always comes with a point that meets the tolerances",
  "Whenever a solve ends with status 'solved' (or 'solved inaccurate'), the returned primal-dual pair satisfies the documented primal and dual residual criteria, and the duality-gap criterion when it is enabled, for the caller's own unscaled problem and the tolerances in force (ten times the tolerances for 'inaccurate'). This holds for every convex problem, every valid combination of settings and both linear system solvers; with scaled termination the criteria hold for the solver's rescaled problem. A requested tolerance of zero in one of the two terms only removes that term. When polishing replaced the pair, its residuals are no larger than those of the pair that met the criteria.",
  ["inputs", "configurations"], "all convex QPs (any sparsity, equality/one-sided/free/infinite bounds, m=0, LPs), all valid settings, both linear solvers",
  "The tests solve about a dozen fixed problems with a few settings and compare against stored solutions; they never recompute the criteria, nor vary scaling, tolerances, checks and problem shape together.",
  ["src/auxil.c", "src/osqp_api.c", "src/scaling.c"],
  [("termination test on residual norms with unscaling", "src/auxil.c: check_termination, compute_prim_res/_tol, compute_dual_res/_tol, compute_duality_gap_tol"),
   ("relaxed test at the iteration/time limit", "src/osqp_api.c: osqp_solve tail")],
  ["solver->info->status_val", "solver->solution->x", "solver->solution->y"])

p("C02", "Solved points are the problem's true optimum, with valid multipliers",
  "For problems whose optimum is known, a solve with tight tolerances returns that optimum: the objective value matches the optimal value, the primal solution matches when it is unique, and the multipliers match when they are unique. The returned multipliers always have the right sign: positive only where the upper bound is active, negative only where the lower bound is active, and zero on constraints that are inactive or unbounded on that side.",
  ["inputs", "configurations"], "all convex QPs built from a known primal-dual optimum (or solved by an exact reference method), all settings that lead to 'solved'",
  "Existing tests compare a few fixed problems against stored numbers; they cannot show that the iteration converges to the right point for arbitrary data and settings.",
  ["src/osqp_api.c", "src/auxil.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c", "algebra/_common/kkt.c"],
  [("ADMM iteration", "src/auxil.c: update_xz_tilde, update_x, update_z, update_y"), ("projection onto the bounds", "algebra/*/vector.c: OSQPVectorf_ew_bound_vec"), ("KKT solve", "algebra/*/lin_sys")],
  ["solver->solution->x", "solver->solution->y", "solver->info->obj_val"])

p("C03", "Reported objective, residuals and gap are those of the returned point",
  "After every solve that returns a solution, the reported primal objective, dual objective, duality gap, primal residual and dual residual are the values recomputed from the returned primal-dual pair and the caller's unscaled data (with scaled termination the two residuals are those of the rescaled problem), and the reported status text is the one belonging to the status value. The gap equals primal minus dual objective, and the gap integral is the sum of the absolute gaps at the points evaluated. This holds for every way a solve can end: solved, inaccurate, iteration limit, time limit, with or without polishing.",
  ["inputs", "configurations", "histories"], "all convex QPs, all valid settings, every terminating branch, first and repeated solves",
  "Tests look at the objective value of a few solved problems only; residuals, gap and dual objective are never recomputed, and never on the limit-reached or polished exits.",
  ["src/auxil.c", "src/osqp_api.c", "src/polish.c"],
  [("information update", "src/auxil.c: update_info, compute_obj_val_dual_gap"), ("polished information", "src/polish.c: polish"), ("final information update", "src/osqp_api.c: osqp_solve")],
  ["solver->info", "solver->solution"])

p("C04", "'Primal infeasible' is only reported with a valid certificate",
  "Whenever a solve ends 'primal infeasible' (or its inaccurate form), the returned vector is a certificate for the caller's problem within the documented tolerance: it has infinity norm one, its product with the transposed constraint matrix is at most the tolerance (ten times for inaccurate), it puts no weight on infinite bounds, and its support value against the bounds is negative; the objective is reported as plus infinity and the solution is marked as not available. A problem that has a feasible point well inside the reach of that tolerance is never declared primal infeasible.",
  ["inputs", "configurations"], "feasible and infeasible problems of every bound type, all tolerances, scaling on/off, both linear solvers",
  "One infeasible problem and one doubly infeasible problem are tested, and only the status value is compared; the certificate's defining inequalities are never evaluated.",
  ["src/auxil.c", "src/osqp_api.c"],
  [("certificate test", "src/auxil.c: is_primal_infeasible"), ("certificate unscaling and normalisation", "src/auxil.c: check_termination, store_solution")],
  ["solver->info->status_val", "solver->solution->prim_inf_cert", "solver->info->obj_val"])

p("C05", "'Dual infeasible' is only reported with a valid certificate",
  "Whenever a solve ends 'dual infeasible' (or its inaccurate form), the returned vector is an unboundedness certificate for the caller's problem within the documented tolerance: infinity norm one, quadratic term annihilated up to the tolerance, linear cost strictly decreasing along it, and constraint images in the recession cone of the bounds up to the tolerance; the objective is reported as minus infinity and the solution is marked as not available. A problem whose minimum is attained at a point well inside the reach of that tolerance is never declared dual infeasible.",
  ["inputs", "configurations"], "bounded and unbounded problems of every bound type, all tolerances, scaling on/off, both linear solvers",
  "Two fixed unbounded problems are tested, and only the status value is compared; the certificate's defining inequalities are never evaluated.",
  ["src/auxil.c", "src/osqp_api.c"],
  [("certificate test", "src/auxil.c: is_dual_infeasible; algebra/*/vector.c: OSQPVectorf_in_reccone"), ("certificate unscaling and normalisation", "src/auxil.c: check_termination, store_solution")],
  ["solver->info->status_val", "solver->solution->dual_inf_cert", "solver->info->obj_val"])

p("C06", "Well-conditioned problems are classified correctly within the iteration limit",
  "With default settings a small well-scaled strictly convex problem, or a linear program with a unique nondegenerate vertex, that has a known optimum is solved, one whose constraints are inconsistent by a clear margin is reported primal infeasible, and one with a clear direction of unbounded descent is reported dual infeasible, each before a generous iteration limit. Raising the iteration limit never turns a correct answer into another one. (Where step-size adaptation stalls on a problem that is not strictly convex, the run without adaptation must decide it.)",
  ["inputs"], "small well-scaled problems of the three classes, constructed with a known answer and margin",
  "The tests hold one or two examples per class; a change that slows or prevents convergence for other shapes (one-sided rows, equality mixes, redundant rows, m=0) goes unnoticed.",
  ["src/osqp_api.c", "src/auxil.c", "src/scaling.c"],
  [("ADMM loop with step-size adaptation", "src/osqp_api.c: osqp_solve; src/auxil.c: adapt_rho, compute_rho_estimate"), ("termination tests", "src/auxil.c: check_termination")],
  ["solver->info->status_val", "solver->info->iter"])

p("C07", "Updating problem data is equivalent to setting up the new problem",
  "After any sequence of successful updates of the cost vector, bounds and matrix values (whole or by index, in any grouping), solving from a cold start gives the result a freshly set up solver with the final data gives: the same status and, within tolerance, the same solution, objective and certificates. With data scaling disabled and the same step size the two runs follow the same iterates. The sparsity pattern stays that of setup.",
  ["histories", "inputs", "configurations"], "all sequences of update calls interleaved with solves, index subsets in any order, scaling on/off, both linear solvers, vector and scalar step size",
  "Tests perform a handful of single updates on fixed problems with one index pattern; combinations, repeated updates, index subsets, missing diagonal entries, bound-type changes and other settings are not reached.",
  ["src/osqp_api.c", "src/auxil.c", "src/scaling.c", "algebra/_common/kkt.c", "algebra/mkl/matrix.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c"],
  [("vector update with scaling", "src/osqp_api.c: osqp_update_data_vec"), ("matrix update: unscale, write, rescale, refactor", "src/osqp_api.c: osqp_update_data_mat; algebra/_common/kkt.c: update_KKT_P, update_KKT_A"), ("constraint type refresh", "src/auxil.c: update_rho_vec")],
  ["osqp_update_data_vec", "osqp_update_data_mat", "osqp_solve results against a fresh osqp_setup"])

p("C08", "Updating settings or step size is equivalent to setting up with them",
  "A successful settings update changes exactly the settings documented as updatable and leaves every other one as it was at setup, and a step-size update stores the new value limited to the documented range. Subsequent cold-started solves behave as those of a solver set up with the resulting settings.",
  ["histories", "configurations"], "all valid settings structures and step sizes, in any sequence, interleaved with solves and data updates",
  "Tests update a few individual settings once; they do not check that the others stay put, nor that behaviour afterwards equals a fresh setup.",
  ["src/osqp_api.c", "src/auxil.c"],
  [("settings copy", "src/osqp_api.c: osqp_update_settings"), ("step-size update", "src/osqp_api.c: osqp_update_rho"), ("linear solver settings refresh", "algebra/*/lin_sys: update_settings")],
  ["solver->settings", "osqp_solve results against a fresh osqp_setup"])

p("C09", "A rejected call leaves the solver exactly as it was",
  "Every update call that is rejected because its arguments are invalid (crossing bounds, bad index counts, nonpositive step size, invalid settings, missing solution storage) returns a nonzero code and has no other effect: settings, retrievable solution or certificate, reported information (times aside), and the results of all later calls are the same as if the call had not been made.",
  ["histories", "fault_sequences"], "every kind of invalid argument at every point of an API history",
  "Tests check only that the return code is nonzero for crossing bounds and some settings; nothing compares the solver's later behaviour with a twin that never saw the call.",
  ["src/osqp_api.c", "src/auxil.c"],
  [("checks before writes", "src/osqp_api.c: osqp_update_data_vec, osqp_update_data_mat, osqp_update_rho, osqp_update_settings"), ("settings validation", "src/auxil.c: validate_settings")],
  ["return codes", "later osqp_solve/osqp_get_solution results against a twin solver"])

p("C10", "Setup and updates accept exactly the valid inputs",
  "Setup succeeds for every problem and settings structure within the documented ranges, and fails with the data-validation or settings-validation error for every one with a violated requirement (missing data, inconsistent dimensions, entry below the diagonal in the quadratic cost, crossing bounds, setting out of range), without producing a solver. Update calls apply the same rules to the arguments they take.",
  ["inputs", "configurations"], "all single and multiple violations of the documented requirements, boundary values of every setting, on arbitrary valid base problems",
  "Tests try a few invalid values per setting on one problem; boundary values, violations at arbitrary positions (which row, which column), combinations and update-time rules are not covered.",
  ["src/auxil.c", "src/osqp_api.c"],
  [("data validation", "src/auxil.c: validate_data"), ("settings validation", "src/auxil.c: validate_settings, validate_linsys_solver"), ("update validation", "src/osqp_api.c: osqp_update_data_vec, osqp_update_data_mat, osqp_update_rho, osqp_update_settings")],
  ["return codes of osqp_setup and osqp_update_*"])

p("C11", "Each solve reports only itself and cold solves are repeatable",
  "The status and information reported after a solve describe that solve alone, never an earlier one: in particular a solve that stops at a limit is never reported as solved because a previous one was. With warm starting off, or after an explicit cold start, repeating a solve with the same data, settings and step size reproduces the first result.",
  ["histories"], "all histories of solves, limits, settings/step-size/data updates, warm and cold starts",
  "Tests solve each problem once or twice with an unchanged outcome; stale status, stale polishing state or leftover iterates only show up in histories with differing outcomes.",
  ["src/osqp_api.c", "src/auxil.c", "src/polish.c"],
  [("status reset", "src/auxil.c: reset_info, update_status"), ("cold start", "src/osqp_api.c: osqp_cold_start"), ("solve prologue", "src/osqp_api.c: osqp_solve")],
  ["solver->info after each osqp_solve", "solver->solution"])

p("C12", "Warm starting changes the starting point only",
  "Warm starting from an optimal primal-dual pair makes the next solve stop at its first termination check with that solution (provided the step size is not adapted before that check), and restarting from where a solve stopped continues it. Warm starting from any other vectors, primal only or dual only, never changes which solution is found, and starting from zero vectors is the same as a cold start.",
  ["histories", "inputs"], "all starting vectors and combinations of given and missing vectors, scaling on/off, before and after updates",
  "One test warm-starts one problem from its solution; scaling of the starting point, partial warm starts and arbitrary starting points are not checked.",
  ["src/osqp_api.c"],
  [("scaled warm start", "src/osqp_api.c: osqp_warm_start"), ("cold start", "src/osqp_api.c: osqp_cold_start")],
  ["solver->info->iter", "solver->solution"])

p("C13", "The caller's data is neither modified nor kept",
  "Setup, update and warm-start calls never write to the arrays and structures passed to them and never refer to them after returning: overwriting or releasing them afterwards changes nothing. Two solvers built from the same arrays do not influence each other.",
  ["histories", "inputs"], "all API histories, with every argument array overwritten and released right after each call",
  "Tests keep their data alive and unchanged for the life of the solver, so a retained pointer or a write to caller memory cannot be seen.",
  ["src/osqp_api.c", "src/util.c", "algebra/mkl/matrix.c", "algebra/mkl/vector.c"],
  [("copies at setup", "src/osqp_api.c: osqp_setup; src/util.c: copy_settings; algebra/*/matrix.c: OSQPMatrix_new_from_csc"), ("copies at update", "algebra/*/vector.c: OSQPVectorf_from_raw")],
  ["argument memory before/after each call", "results with poisoned arguments"])

p("C14", "Iteration limit, time limit and check interval are respected",
  "A solve performs at most the allowed number of iterations and reports how many it performed; it is declared solved or infeasible early only at a multiple of the check interval, and with checking disabled it always runs to a limit. It stops at the first iteration at which the allowed time has elapsed, and then reports a limit status unless the final point meets the strict or relaxed criteria or the final step is an infeasibility certificate, in which case it reports that.",
  ["configurations", "schedules"], "all iteration limits, check intervals, time limits and clock behaviours (elapsed time at each reading), first and later solves",
  "Tests use one tiny time limit and one iteration limit on one problem; the exact stopping iteration, and the time accounting for first and later solves, are not checked.",
  ["src/osqp_api.c", "src/timing_linux.c"],
  [("loop bound and break conditions", "src/osqp_api.c: osqp_solve"), ("clock", "src/timing_linux.c: osqp_toc")],
  ["solver->info->iter", "solver->info->status_val", "timing fields with a controlled clock"])

p("C15", "Polishing never makes the answer worse",
  "With polishing enabled, a solve returns either the unpolished answer unchanged, or a polished one whose primal and dual residuals are not worse than the unpolished ones (beyond rounding), and the polishing status says which. When the optimum is nondegenerate and the active constraints are identified the polished answer is accurate to near machine precision, and multiplier signs remain valid. A successful polishing returns the solution of the problem restricted to the constraints guessed active by the documented rule, and that solution is taken exactly when it is better.",
  ["inputs", "configurations"], "all problems and polishing settings, compared with the same solve without polishing",
  "Tests polish a few fixed problems and check success; failed or harmful polishing, degenerate active sets and the regularisation setting are not explored.",
  ["src/polish.c", "src/osqp_api.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c"],
  [("active set guess and reduced KKT", "src/polish.c: form_Ared, form_rhs_red"), ("iterative refinement", "src/polish.c: iterative_refinement"), ("acceptance test", "src/polish.c: polish")],
  ["solver->info->status_polish", "solver->solution with polishing 0 and 1"])

p("C16", "No API history causes a memory error or a leak",
  "No sequence of API calls with valid pointers, including failed setups, failed updates, calls on missing solvers, solves that end in any status, and cleanup at any point, reads or writes outside the objects involved, uses released or uninitialised memory, or triggers undefined arithmetic; after cleanup everything allocated has been released exactly once.",
  ["histories", "inputs", "configurations"], "all API call sequences over all problem shapes (m=0, empty matrices, missing diagonals) and settings",
  "Tests run without sanitizers and follow one straight path per problem; leaks and out-of-bounds accesses on error paths or with unusual shapes are invisible to them.",
  ["src/osqp_api.c", "src/polish.c", "algebra/mkl/matrix.c", "algebra/mkl/vector.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],
  [("ownership and cleanup", "src/osqp_api.c: osqp_cleanup"), ("null checks", "src/osqp_api.c: every entry point")],
  ["AddressSanitizer/UBSan reports", "allocation ledger at cleanup"])

p("C17", "Running out of memory yields an error, not a crash or leak",
  "If any one memory allocation fails (or all from some point on), the call in progress returns an error code and the process does not crash; cleaning up whatever object was returned then releases every allocation exactly once. A later setup with memory available succeeds and gives the usual result.",
  ["fault_sequences", "configurations"], "every single allocation failure point, and fail-from-k-on, in setup, solve, polish and update, over problem shapes and settings",
  "No test injects allocation failures.",
  ["src/osqp_api.c", "src/polish.c", "src/util.c", "algebra/mkl/matrix.c", "algebra/mkl/vector.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c", "algebra/_common/csc_utils.c", "algebra/_common/kkt.c"],
  [("allocation checks", "src/osqp_api.c: osqp_setup; algebra/*: constructors"), ("partial cleanup", "src/osqp_api.c: osqp_cleanup")],
  ["return codes", "allocation ledger", "process exit"])

p("C18", "Direct and indirect linear solvers give the same answers",
  "For every problem and settings combination, a solve with the direct and one with the indirect linear system solver agree on the outcome: if both terminate with a definite status it is the same one, and solutions agree within the tolerances. This includes scalar and vector step size, both preconditioner choices and all data updates.",
  ["configurations", "inputs", "histories"], "all convex problems and settings accepted by both solvers, with updates",
  "Tests run each fixed problem with each solver separately against stored values; other shapes (m=0, empty rows), scalar step size, preconditioner and update paths are not compared.",
  ["algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c", "algebra/_common/reduced_kkt.c"],
  [("quasi-definite solve", "pardiso_interface.c: solve_linsys_pardiso"), ("reduced system by conjugate gradient", "mkl-cg_interface.c: solve_linsys_mklcg; reduced_kkt.c")],
  ["osqp_solve results for both linsys_solver values"])

p("C19", "Answers do not depend on tuning settings or on how a problem is written",
  "For problems with a unique optimum, changing algorithm tuning (step sizes, relaxation, scaling, step-size adaptation, check interval, linear solver tuning) does not change the solution beyond tolerance. Rewriting the problem equivalently - permuting variables or constraints, negating or rescaling rows, rescaling the cost, shifting or rescaling variables, duplicating constraints, replacing infinite bounds by other infinite values - changes the solution only by the corresponding transformation.",
  ["inputs", "configurations"], "all problems with unique optimum, all tunings, all compositions of the listed rewrites",
  "Tests use default tuning with one representation per problem; metamorphic relations between runs are never examined.",
  ["src/osqp_api.c", "src/auxil.c", "src/scaling.c"],
  [("scaling", "src/scaling.c: scale_data, unscale_solution"), ("step size logic", "src/auxil.c: set_rho_vec, adapt_rho"), ("iteration", "src/auxil.c")],
  ["solver->solution across equivalent formulations"])

p("C20", "An interrupt stops the solve cleanly and is otherwise left alone",
  "If the interrupt signal arrives during a solve, the solve stops after the iteration in progress with the interrupted status and a nonzero return, and the solver stays usable: a later cold-started solve gives the normal result. When a solve returns, however it ends, the caller's signal disposition is back in force, and signals delivered outside a solve never affect one.",
  ["schedules", "histories"], "every iteration at which the signal can arrive, all settings and ways of ending, repeated interrupts, any prior signal disposition",
  "No test delivers a signal.",
  ["src/interrupt_unix.c", "src/osqp_api.c"],
  [("listener start/stop", "src/interrupt_unix.c"), ("interrupt check and exit path", "src/osqp_api.c: osqp_solve")],
  ["sigaction(SIGINT) after solve", "solver->info->status_val", "later solves"])

p("C21", "Clearly non-convex problems are refused; convex ones never are",
  "Setup with the direct solver fails with the non-convexity error whenever the quadratic cost plus the sigma regularisation is clearly negative along a direction that the constraints do not restrain (so that the linear system shows it), and a matrix update to such a cost is reported by a nonzero return; a positive semidefinite cost is never refused at setup or update, nor reported non-convex by a solve (unless the step size is adapted every few iterations or the inner linear solver is stopped after a few steps, which may make the method diverge). After a refused setup nothing but cleanup is needed.",
  ["inputs", "histories"], "all symmetric costs with known spectrum (clearly indefinite, singular positive semidefinite, definite), any sigma, any constraints",
  "Tests have one 2x2 non-convex problem with two sigma values.",
  ["algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/_common/lin_sys/qdldl/qdldl_interface.c", "src/osqp_api.c"],
  [("inertia check at factorisation", "pardiso_interface.c: init/update; qdldl_interface.c: LDL_factor"), ("divergence check", "src/auxil.c: check_termination")],
  ["return codes of osqp_setup, osqp_update_data_mat", "solver->info->status_val"])

p("C22", "Solver objects are independent of each other",
  "Interleaving calls on several solver objects in any order gives each the same results as running its calls alone, and cleaning one up does not affect the others. This includes solvers with different sizes, settings and linear system solvers.",
  ["schedules", "histories"], "all interleavings of API histories of two or three solvers",
  "Tests hold one solver at a time.",
  ["src/osqp_api.c", "src/interrupt_unix.c", "algebra/mkl/algebra_libs.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c"],
  [("per-solver workspace", "include/private/types.h: OSQPWorkspace_"), ("library handles", "algebra/mkl/algebra_libs.c: osqp_algebra_init_libs, osqp_algebra_free_libs")],
  ["results of each solver in interleaved and isolated runs"])

p("C23", "Vector and matrix operations match their mathematical definitions",
  "Every operation of the linear algebra layer (vector arithmetic, norms, products, projections, bound classification, subvectors and views; matrix products for full and triangular storage, norms, diagonal scaling and extraction, row selection, value updates, copies) returns the result of its mathematical definition up to rounding and leaves its inputs unchanged, for all sizes including zero, all sparsity patterns and every permitted aliasing of arguments.",
  ["inputs"], "all vectors and sparse matrices incl. empty, with zero and extreme values, all scalar arguments, all permitted aliasings",
  "lin_alg tests use a few stored vectors and matrices of one size; special-cased scalars (0, 1, -1), aliasing, empty rows and columns and sizes 0 and 1 are partly covered at most.",
  ["algebra/mkl/vector.c", "algebra/mkl/matrix.c", "algebra/builtin/vector.c", "algebra/builtin/matrix.c", "algebra/_common/csc_math.c"],
  [("vector kernels", "algebra/*/vector.c"), ("matrix kernels", "algebra/*/matrix.c, algebra/_common/csc_math.c")],
  ["include/private/algebra_vector.h and algebra_matrix.h functions (the API the repository's lin_alg tests use)"])

p("C24", "KKT matrices and sparse conversions contain exactly the intended entries",
  "The assembled KKT matrix contains exactly the cost matrix plus the shift, the constraint matrix, and the negated parameter diagonal at their places, in the requested triangular storage; after any update of values or parameters it equals the one assembled from scratch, and the index maps point to the entries they name. Triplet, transpose, permutation, stacking and row-selection conversions preserve every entry.",
  ["inputs", "histories"], "all upper triangular costs (missing/partial diagonals, empty columns), all constraint matrices, both storage formats, any sequence of index-wise updates",
  "One test updates one KKT matrix of one pattern in one format.",
  ["algebra/_common/kkt.c", "algebra/_common/csc_utils.c", "algebra/_common/reduced_kkt.c"],
  [("assembly", "algebra/_common/kkt.c: form_KKT"), ("updates", "algebra/_common/kkt.c: update_KKT_P, update_KKT_A, update_KKT_param2"), ("conversions", "algebra/_common/csc_utils.c")],
  ["KKT arrays against a dense reference"])

p("C25", "Helper functions of the API are total and consistent",
  "Matrix constructors produce well-formed matrices with exactly the requested entries for all dimensions; default settings are valid and as documented; retrieving the solution is repeatable, does not disturb the solver and agrees with the stored solution whether or not storage is allocated in the solver; reported dimensions, capabilities, version and error texts are consistent, and every error code including zero and unknown codes yields a valid text. Entry points called with a missing or unfinished solver return an error.",
  ["inputs", "histories"], "all dimensions and values, all integer error codes, retrieval at any point of any history",
  "Tests build a few matrices and retrieve one solution once; code ranges, repeated retrieval at other statuses and missing objects are not covered.",
  ["src/osqp_api.c", "src/error.c", "src/auxil.c"],
  [("matrix helpers", "src/osqp_api.c: OSQPCscMatrix_*"), ("solution retrieval", "src/osqp_api.c: osqp_get_solution; src/auxil.c: store_solution"), ("error text", "src/osqp_api.c: osqp_error_message; src/error.c")],
  ["return values of the helper functions"])

p("C26", "Step-size adaptation follows its settings",
  "With adaptation disabled the step size never changes; in the iteration and error-based modes it changes only at multiples of the configured interval, in the time mode only at multiples of an interval that is at least the check interval, and only when the new value differs from the current one by more than the configured factor. The step size in force and its reported estimate always stay within the documented range, the reported number of changes is the number that happened, and equality, ordinary and unbounded constraints get their documented weights.",
  ["configurations", "schedules", "inputs"], "all adaptation settings, clock behaviours and problems",
  "Tests only check that adaptive and non-adaptive runs both solve a fixed problem.",
  ["src/osqp_api.c", "src/auxil.c"],
  [("adaptation schedule", "src/osqp_api.c: osqp_solve"), ("estimate and limits", "src/auxil.c: compute_rho_estimate, adapt_rho, set_rho_vec")],
  ["solver->settings->rho", "solver->info->rho_updates, rho_estimate", "progress output"])

p("C27", "Output is faithful and switching it on or off changes nothing",
  "The verbose setting affects printed output only: iterations, status, solution and reported information (times and the gap integral aside) are the same with it on or off (with the indirect linear solver, whose accuracy follows the residuals last evaluated, within the tolerances), and a silent solver prints nothing in error-free use. What is printed agrees with the reported information: status text, iteration count, final objective and polishing outcome.",
  ["configurations", "inputs"], "all problems and settings, verbose on/off, settings changes between solves",
  "Tests run silently or ignore the output.",
  ["src/osqp_api.c", "src/util.c", "src/auxil.c"],
  [("printing guards", "src/osqp_api.c: osqp_solve"), ("output routines", "src/util.c: print_*")],
  ["captured output", "solver->info, solver->solution"])

p("C28", "Generated code solves the same problem in the same way",
  "The code generated for a solver compiles, and the solver it contains, run before and after any supported updates (vectors in mode 1, also matrices and step size in mode 2), returns the same status, iteration count and solution, up to rounding, as the solver it was generated from. Invalid code generation options are rejected with the documented error and nothing is written.",
  ["programs", "inputs", "configurations"], "all problems and settings accepted for code generation, both embedded modes, float and double, any update sequence",
  "The code generation test compares text with stored files for one problem, and it is not even built with the linear algebra backend of the default test build.",
  ["src/codegen.c", "src/osqp_api.c", "algebra/builtin/vector.c", "algebra/builtin/matrix.c", "algebra/_common/lin_sys/qdldl/qdldl_interface.c"],
  [("workspace writer", "src/codegen.c"), ("embedded solver", "sources compiled with OSQP_EMBEDDED_MODE")],
  ["compiled generated program's output against the library's"])

p("C29", "Solution derivatives are the derivatives of the solution",
  "At a solved problem with a unique, strictly complementary and nondegenerate solution, the adjoint derivatives of any scalar function of the solution with respect to the cost matrix, cost vector, constraint matrix and bounds are the limits of the difference quotients of re-solved problems, whatever entries of the matrices are asked for and however the problem was reached. Computing them does not change the solver, entries for bounds that are inactive are zero, and calls without a solver, without a stored solution or without memory return an error code.",
  ["inputs"], "all problems with a known nondegenerate solution, all direction vectors",
  "One test compares four fixed problems to stored derivatives, and it is not built with the linear algebra backend of the default test build.",
  ["src/derivative.c", "src/osqp_api.c", "algebra/_common/lin_sys/qdldl/qdldl_interface.c"],
  [("adjoint system", "src/derivative.c: adjoint_derivative_compute; qdldl_interface.c: adjoint_derivative_qdldl"), ("extraction", "src/derivative.c: adjoint_derivative_get_mat, adjoint_derivative_get_vec")],
  ["osqp_adjoint_derivative_* outputs against the implicit derivative of the optimality conditions"])

p("C30", "Algebra backends and precisions give the same answers",
  "The library built with the built-in algebra, in double and in single precision and with short or long indices, returns the same outcomes as the reference build for the same problem and settings: same status when both are definite, and solutions equal within the tolerances the precision permits.",
  ["configurations", "inputs"], "all convex problems with settings meaningful in both precisions; backends: MKL, built-in (double/float, int/long)",
  "The default test build exercises only one backend, precision and index width, and tests never compare builds.",
  ["algebra/builtin/vector.c", "algebra/builtin/matrix.c", "algebra/_common/csc_math.c", "algebra/_common/lin_sys/qdldl/qdldl_interface.c", "algebra/mkl/vector.c", "algebra/mkl/matrix.c"],
  [("built-in kernels", "algebra/builtin"), ("QDLDL interface", "algebra/_common/lin_sys/qdldl/qdldl_interface.c")],
  ["osqp_solve results of the builds"])

p("C31", "Internal rescaling is a bounded, exactly invertible change of variables",
  "When data scaling is on, the internally stored problem is the caller's problem multiplied by positive row, column and cost factors: those of the documented equilibration procedure for the matrices last given, within the limits it implies, and stored together with their inverses. Rows and columns without nonzero entries are left unscaled, and the scale-unscale round trips of long update histories do not accumulate error in the stored problem.",
  ["inputs", "histories"], "all data magnitudes within the scaling limits, zero rows/columns, long update histories",
  "Tests never look at the scaled data, and solve only well-scaled fixed problems.",
  ["src/scaling.c", "src/osqp_api.c"],
  [("equilibration", "src/scaling.c: scale_data, limit_scaling_*"), ("inverse", "src/scaling.c: unscale_data, unscale_solution")],
  ["solver->work->data and scaling against the caller's data", "solutions after long update histories"])

p("C32", "The iterates follow the documented method whatever the tuning",
  "After any number of iterations, the reported point, the residuals and the step size are those of the documented operator-splitting iteration run on the (documented) rescaled problem with the settings in force: relaxation, sigma, per-constraint step sizes, adaptation of the step size at the configured points, and warm-started or retained iterates. They agree with a dense reference of the method up to the rounding a twin reference run tolerates.",
  ["inputs", "configurations", "histories"], "all convex problems, all tunings, any iteration count and warm start within the range where rounding does not dominate",
  "Tests check only that the method converges for a few fixed problems; a method that converges to the same point along a wrong path (wrong relaxation, step size or weights) passes.",
  ["src/auxil.c", "src/osqp_api.c", "src/scaling.c", "algebra/_common/kkt.c"],
  [("iteration", "src/auxil.c: update_xz_tilde, update_x, update_z, update_y"), ("loop", "src/osqp_api.c: osqp_solve"), ("step size", "src/auxil.c: adapt_rho, set_rho_vec")],
  ["solver->solution after a limited number of iterations against a dense reference"])

p("C33", "Only the values last set count, not the order or grouping of the calls",
  "What a solver does next is determined by the problem, settings, step size and starting point it holds, not by how they got there. Calls that set independent things (cost vector, bounds, settings, step size, starting point; without scaling also the matrices) may be made in any order; vectors, bounds or a starting point may be given in one call or one at a time, and (without scaling) matrix values whole or in parts by index; making a call twice, retrieving the solution or (without scaling) passing again the vectors the solver already holds has no further effect. The solves that follow return the same results to the last bit.",
  ["histories", "inputs", "configurations"], "all interleavings of accepted setter calls after any history, all settings, both linear solvers",
  "Tests make one update call at a time in a fixed order and never compare two routes to the same state.",
  ["src/osqp_api.c", "src/auxil.c", "algebra/_common/kkt.c", "algebra/mkl/lin_sys/direct/pardiso_interface.c", "algebra/mkl/lin_sys/indirect/mkl-cg_interface.c"],
  [("setters", "src/osqp_api.c: osqp_update_data_vec, osqp_update_data_mat, osqp_update_settings, osqp_update_rho, osqp_warm_start, osqp_cold_start"), ("step-size classes", "src/auxil.c: update_rho_vec"), ("linear-system updates", "algebra/mkl/lin_sys, algebra/_common/lin_sys")],
  ["results of the following osqp_solve calls of two solvers in one process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
