// C02: solved points are the true optimum, multipliers have the right signs.
#include "opt.hpp"
PROPERTY(C02, known_optimum, 3, "solved, and the tolerances bound the objective to within 1% of the size of the problem") {
  GenOpt o; o.scaleRows = s.chance(1, 2); Prob p = s.chance(1, 5) ? gen_lp(s, o) : gen_kkt(s, o);
  SetOpt so; so.scaledTerm = false; so.limits = false; OSQPSettings st = gen_settings(s, so); static const double k[] = {1e-6, 1e-5, 1e-8, 1e-4}; double e = k[s.draw(4)]; st.eps_abs = (OSQPFloat)e; st.eps_rel = (OSQPFloat)(s.chance(1, 3) ? 0 : e); st.max_iter = 20000; st.eps_prim_inf = st.eps_dual_inf = (OSQPFloat)1e-7;
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard();
  Result r = q.run(); c.log("status %s iter %d", st_name(r.st()), (int)r.info.iter); c.label(std::string("status:") + st_name(r.st())); { Resid R = residuals(p, r.x, r.y); c.log("polish %d recomputed pdist %Lg dres %Lg gap %Lg; reported %g %g", (int)r.info.status_polish, R.pdist, R.dres, R.gap, (double)r.info.prim_res, (double)r.info.dual_res); }
  if (!st_solved(r.st())) return;
  check_opt(c, p, q, r); check_signs(c, p, q, r, rho_hi(q));
  Bound b; if (opt_bounds(p, st, r, b)) { Resid R = residuals(p, r.x, r.y); if (b.up + b.lo < 0.01L * (1 + fabsl(R.pobj))) c.nontrivial(); }
}
PROPERTY(C02, signs, 2, "solved with at least one nonzero multiplier and one inactive or one-sided row") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; so.scaledTerm = false; OSQPSettings st = gen_settings(s, so); log_prob(c, p); log_settings(c, st);
  Osqp q; if (q.setup(p, st)) c.discard();
  OpOpt oo; oo.so = so; int k = s.range(1, 3); double rh = rho_hi(q);
  for (int i = 0; i < k; i++) {
    if (i) { Op op = s.chance(1, 2) ? gen_vec(s, p, false) : gen_mat(s, p, false); log_op(c, op); if (apply_op(q, op) == 0) model_op(p, op); else c.discard(); }
    Result r = q.run(); c.log("status %s iter %d", st_name(r.st()), (int)r.info.iter); rh = std::max(rh, rho_hi(q)); check_signs(c, p, q, r, rh * (q.s->settings->adaptive_rho ? 1e3 : 1));
    if (st_solved(r.st())) { bool nz = false, in = false; for (int j = 0; j < p.m; j++) { nz |= r.y[j] != 0; in |= is_inf_bound(p.l[j]) || is_inf_bound(p.u[j]) || r.y[j] == 0; } if (nz && in) c.nontrivial(); }
  }
}
// the optimum is really reached: strictly convex or vertex problems of moderate size must come out right
PROPERTY(C02, converges, 2, "solved to within 1e-3 of a unique known optimum") {
  GenOpt o; o.well = true; o.scaleRows = false; o.pd = true; Prob p = s.chance(1, 4) ? gen_lp(s, o) : gen_kkt(s, o);
  OSQPSettings st = defaults(); if (s.chance(1, 3) && p.kind != K_LP && (osqp_capabilities() & OSQP_CAPABILITY_INDIRECT_SOLVER)) st.linsys_solver = OSQP_INDIRECT_SOLVER; if (s.chance(1, 2)) { static const int sc[] = {10, 0, 1, 5}; st.scaling = sc[s.draw(4)]; } if (s.chance(1, 3)) st.polishing = 1; if (s.chance(1, 3)) st.rho_is_vec = 0; if (s.chance(1, 3)) { static const double a[] = {1.6, 1.0, 1.2, 1.8, 0.7}; st.alpha = (OSQPFloat)a[s.draw(5)]; }
  if (s.chance(1, 3)) st.adaptive_rho = s.range(0, 3); if (st.adaptive_rho == 2) st.adaptive_rho = 1; if (p.kind == K_LP) st.adaptive_rho = 0;   // the adaptation may cycle on linear programs
  st.eps_abs = st.eps_rel = (OSQPFloat)(st.linsys_solver == OSQP_INDIRECT_SOLVER ? 1e-5 : 1e-7); st.max_iter = 200000; st.eps_prim_inf = st.eps_dual_inf = (OSQPFloat)1e-9;
  if (getenv("VH_VERB")) st.verbose = 1;
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); Result r = q.run(); c.log("status %s iter %d", st_name(r.st()), (int)r.info.iter);
  if (r.st() == OSQP_MAX_ITER_REACHED && r.info.rho_updates > 50) { c.label("rho-cycle"); OSQPSettings t = st; t.adaptive_rho = 0; q.cleanup(); if (q.setup(p, t)) c.discard(); r = q.run(); }   // the adaptation may cycle; the step size kept fixed, the iteration converges
  if (r.st() == OSQP_PRIMAL_INFEASIBLE && p.m) { c.label("barely-feasible"); check_pinf(c, p, q, r); return; }   // bounds that leave a single point (see C06)
  CHECK(c, r.st() == OSQP_SOLVED, "opt:not-solved", "a well-conditioned problem with a known optimum ended with '%s' after %d iterations", r.info.status, (int)r.info.iter);
  check_opt(c, p, q, r); check_signs(c, p, q, r, rho_hi(q) * 1e3);
  ld d = 0; for (int j = 0; j < p.n; j++) d = std::max(d, fabsl((ld)r.x[j] - p.xs[j])); if (d < 1e-3L) c.nontrivial(); c.label(r.info.iter <= 200 ? "iter<=200" : r.info.iter <= 2000 ? "iter<=2000" : "iter>2000");
}
