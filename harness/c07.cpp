// C07: updating data is equivalent to setting up the new problem.
#include "hist.hpp"
#include "path.hpp"
// perturb the target backwards: a start problem with the same pattern, then a list of updates that leads to the target
// returns false when an update was refused for a reason that is not this property's business
static void run_path(Ctx& c, Osqp& q, Prob& cur, const std::vector<Op>& ops) {
  bool mat = false; for (auto& o : ops) { log_op(c, o); int f = apply_op(q, o); if (o.k != O_SOLVE) CHECK(c, f == 0, refusal_key(cur, o, *q.s->settings, mat), "a valid %s was refused with %d", op_name(o.k), f); mat |= o.k == O_MAT; model_op(cur, o); }
}
static double worst(const V& v) { double m = 0; for (auto x : v) m = std::max(m, fabs((double)x)); return m; }

// the internally stored problem is a deterministic function of the data: without scaling (or when the last update
// rebuilt the scaling) the iterates of the updated and of the fresh solver coincide
PROPERTY(C07, same_iterates, 3, "the path changed at least one value and both solvers ran the same number of iterations") {
  GenOpt o; Prob target = gen_any(s, o), start; std::vector<Op> ops; path_to(s, target, start, ops, s.chance(2, 3));
  SetOpt so; so.limits = false; so.wild = false; OSQPSettings st = gen_settings(s, so); bool ind = st.linsys_solver == OSQP_INDIRECT_SOLVER; st.adaptive_rho = 0; st.polishing = 0; st.check_termination = 0; st.max_iter = s.range(1, 40); st.warm_starting = s.chance(1, 2);
  if (st.scaling && s.chance(1, 2)) st.scaling = 0;
  if (st.scaling) { // equal scaling only if the last data update is a matrix update
    Op last; last.k = O_MAT; if (target.A.nnz()) { last.hA = last.aall = true; last.Ax = target.A.x; } else if (target.P.nnz()) { last.hP = last.pall = true; last.Px = target.P.x; } else c.discard(); ops.push_back(last); }
  log_prob(c, start); log_settings(c, st); Osqp q, f; if (q.setup(start, st)) c.discard(); Prob cur = start; run_path(c, q, cur, ops); osqp_cold_start(q.s); if (f.setup(target, st)) c.discard();
  Result a = q.run(), b = f.run(); c.log("updated: %s; fresh: %s", st_name(a.st()), st_name(b.st()));
  // compare only where the iteration has not blown up; with scaling the stored data differ by rounding
  V xa = a.x, xb = b.x; if (!st_hassol(a.st()) || !st_hassol(b.st())) { if (st_pinf(a.st()) != st_pinf(b.st()) || st_dinf(a.st()) != st_dinf(b.st())) { if (!st.scaling && !ind) CHECK(c, false, "update:status", "updated solver: '%s', fresh solver: '%s'", a.info.status, b.info.status); } return; }
  double tol = ind ? 1e-5 : st.scaling ? 1e-6 : 1e-8; int at = 0; if (ind && st.max_iter > 8) return; double my = std::max(worst(a.y), worst(b.y)), mx = std::max(worst(a.x), worst(b.x)); if (!(mx < 1e8) || !(my < 1e8)) return;
  // a gap within rounding of the threshold that makes a constraint an equality: which step-size class it gets is undefined
  if (st.scaling && st.rho_is_vec) { V D, E, Di, Ei; double cs, ci; bool pk = peek_scaling(f.s, D, E, Di, Ei, cs, ci); for (int i = 0; i < target.m; i++) { double g = (double)target.u[i] - target.l[i]; if (g <= 0 || is_inf_bound(target.l[i]) || is_inf_bound(target.u[i])) continue; if (pk ? fabs(g * E[i] / 1e-4 - 1) < 1e-5 : g < 10) { c.label("borderline-equality"); return; } } }
  if (st.scaling && scaling_edge(target, (int)st.scaling)) { c.label("scaling-threshold"); return; }
  // amplification guard: run a twin whose data is off by one part in 1e12; if it moves by more than tol the case is too sensitive
  for (int k = 0; k < 4; k++) { Prob t2 = target; uint64_t h = 0x9e3779b97f4a7c15ull * (k + 1); auto e = [&](OSQPFloat& v, double r) { h ^= h << 13; h ^= h >> 7; h ^= h << 17; if (!is_inf_bound(v)) v = (OSQPFloat)(v * (1 + r * (k == 0 ? 1 : k == 1 ? -1 : (h >> 20 & 1) ? 1 : -1))); };
    for (auto& v : t2.A.x) e(v, 1e-13); for (auto& v : t2.P.x) e(v, 1e-13); for (auto& v : t2.q) e(v, 1e-13); for (int i = 0; i < t2.m; i++) { bool eq = t2.l[i] == t2.u[i]; e(t2.l[i], 1e-13); if (eq) t2.u[i] = t2.l[i]; else e(t2.u[i], 1e-13); }
    Osqp g; if (g.setup(t2, st)) { c.label("too-sensitive"); return; } Result d = g.run(); if (!st_hassol(d.st()) || !vclose(d.x, b.x, tol * 0.1, 1e-10) || !vclose(d.y, b.y, tol * 0.1, 1e-10)) { c.label("too-sensitive"); return; } }
  CHECK(c, vclose(a.x, b.x, tol, 1e-9, &at), "update:iterate-x", "after %d iterations x[%d] is %.12g in the updated solver and %.12g in the fresh one", (int)st.max_iter, at, (double)a.x[at], (double)b.x[at]);
  CHECK(c, vclose(a.y, b.y, tol, 1e-9, &at), "update:iterate-y", "after %d iterations y[%d] is %.12g in the updated solver and %.12g in the fresh one", (int)st.max_iter, at, (double)a.y[at], (double)b.y[at]);
  CHECK(c, a.info.iter == b.info.iter, "update:iter", "updated ran %d iterations, fresh %d", (int)a.info.iter, (int)b.info.iter);
  CHECK(c, a.st() == b.st() || (st.eps_abs < 1e-9 && st.eps_rel < 1e-9) || a.st() == OSQP_MAX_ITER_REACHED || b.st() == OSQP_MAX_ITER_REACHED || st_solved(a.st()) == st_solved(b.st()), "update:status", "updated solver: '%s', fresh solver: '%s'", a.info.status, b.info.status);
  if (!ops.empty()) c.nontrivial(); c.label(st.scaling ? "scaled" : "unscaled"); c.label(ind ? "indirect" : "direct");
}
// full solves: whatever the path, the answer is that of the target problem
PROPERTY(C07, same_answer, 3, "the updated solver ended with a definite status that was judged against the target problem") {
  GenOpt o; o.well = s.chance(1, 2); Prob target = gen_any(s, o), start; std::vector<Op> ops; path_to(s, target, start, ops, s.chance(1, 2));
  SetOpt so; OSQPSettings st = gen_settings(s, so); st.max_iter = 10000; if (!st.check_termination) st.check_termination = 10;
  log_prob(c, start); log_settings(c, st); Osqp q; if (q.setup(start, st)) c.discard(); Prob cur = start; run_path(c, q, cur, ops); if (s.chance(1, 2)) osqp_cold_start(q.s);
  Result a = q.run(); c.log("updated: %s iter %d polish %d prim_res %g dual_res %g rho %g", st_name(a.st()), (int)a.info.iter, (int)a.info.status_polish, (double)a.info.prim_res, (double)a.info.dual_res, (double)q.s->settings->rho); c.label(std::string("status:") + st_name(a.st()));
  bool j = false;
  if (st_solved(a.st())) j = check_solved(c, target, q, a); else if (st_pinf(a.st())) j = check_pinf(c, target, q, a); else if (st_dinf(a.st())) j = check_dinf(c, target, q, a);
  if (st_hassol(a.st())) check_info(c, target, q, a);
  if (j) c.nontrivial();
}
// definite problems stay definite: well-conditioned targets with known class must be classified after updates as well
PROPERTY(C07, classified, 2, "a problem of known class was reached by updates and classified") {
  GenOpt o; o.well = true; o.scaleRows = false; int cls = s.range(0, 3); o.pd = cls <= 1 || cls == 2; Prob target = cls <= 1 ? gen_kkt(s, o) : cls == 2 ? gen_pinf(s, o) : gen_dinf(s, o), start; std::vector<Op> ops; path_to(s, target, start, ops, true);
  OSQPSettings st = defaults(); st.max_iter = 50000; if (s.chance(1, 4)) st.scaling = 0; if (s.chance(1, 3)) st.rho_is_vec = 0; if (s.chance(1, 4)) st.polishing = 1; if (s.chance(1, 4) && (osqp_capabilities() & OSQP_CAPABILITY_INDIRECT_SOLVER) && cls <= 1) st.linsys_solver = OSQP_INDIRECT_SOLVER;
  log_prob(c, start); log_settings(c, st); Osqp q; if (q.setup(start, st)) c.discard(); Prob cur = start; run_path(c, q, cur, ops);
  if (s.chance(1, 2)) osqp_cold_start(q.s); if (s.chance(1, 3)) osqp_update_rho(q.s, (OSQPFloat)0.1);
  Result a = q.run(); c.log("updated: %s iter %d", st_name(a.st()), (int)a.info.iter); int want = cls <= 1 ? OSQP_SOLVED : cls == 2 ? OSQP_PRIMAL_INFEASIBLE : OSQP_DUAL_INFEASIBLE; c.label(std::string("status:") + st_name(a.st()));
  if (a.st() != want) { // a fresh solver on the same data decides whether the problem or the update is to blame
    Osqp f; f.setup(target, st); Result b = f.run(); c.log("fresh: %s iter %d", st_name(b.st()), (int)b.info.iter); if (b.st() != want) return; { if (b.info.iter > 2000) { c.label("slow"); return; } osqp_cold_start(q.s); osqp_update_rho(q.s, (OSQPFloat)0.1); a = q.run(); c.log("again from cold with the initial step size: %s iter %d", st_name(a.st()), (int)a.info.iter); } }
  CHECK(c, a.st() == want, "update:class", "after updates the problem ended with '%s', expected status value %d", a.info.status, want);
  c.nontrivial();
}
