// C06: well-conditioned problems are classified correctly with default settings.
#include "hist.hpp"
PROPERTY(C06, classify, 1, "the problem has at least one constraint or a nonzero cost matrix and came out in its class") {
  GenOpt o; o.well = true; o.scaleRows = false; if (s.chance(1, 8)) { o.nmax = 20; o.mmax = 25; }
  int cls = s.range(0, 5); o.pd = cls == 4;   // so that an infeasible problem is not unbounded as well
  Prob p = cls <= 2 ? gen_kkt(s, o) : cls == 3 ? gen_lp(s, o) : cls == 4 ? gen_pinf(s, o) : gen_dinf(s, o);
  OSQPSettings st = defaults(); if (s.chance(1, 4) && (osqp_capabilities() & OSQP_CAPABILITY_INDIRECT_SOLVER)) st.linsys_solver = OSQP_INDIRECT_SOLVER; st.max_iter = 100000; if (s.chance(1, 4)) st.polishing = 1;
  log_prob(c, p); log_settings(c, st); Osqp q; int f = q.setup(p, st); CHECK(c, f == 0, "class:setup", "setup of a valid problem failed with %d", f);
  Result r = q.run(); c.log("status %s iter %d", st_name(r.st()), (int)r.info.iter); static const char* kn[] = {"optimal", "optimal", "optimal", "lp", "primal-infeasible", "dual-infeasible"}; c.label(std::string(kn[cls]) + ":" + st_name(r.st()));
  bool ind = st.linsys_solver == OSQP_INDIRECT_SOLVER, strict = cls <= 2 && min_eig(denseSym(p.P), p.n) > 0.05;
  int want = cls <= 3 ? OSQP_SOLVED : cls == 4 ? OSQP_PRIMAL_INFEASIBLE : OSQP_DUAL_INFEASIBLE;
  if (r.st() != want && r.st() != OSQP_PRIMAL_INFEASIBLE && r.st() != OSQP_DUAL_INFEASIBLE && r.st() != OSQP_SOLVED) {
    if (ind && !strict) { c.label("indirect-undecided"); return; }      // inexact steps may stall on unbounded iterates
    if (cls <= 3 && !strict) {   // step-size adaptation may cycle on problems without strict convexity: then the plain method must find it
      OSQPSettings t = st; t.adaptive_rho = 0; t.max_iter = 1000000; Osqp q3; q3.setup(p, t); Result r3 = q3.run(); c.label("rho-cycling"); c.log("without adaptation: %s iter %d", st_name(r3.st()), (int)r3.info.iter); if (r3.st() == OSQP_SOLVED) return; }
  }
  // bounds that leave a single point: an arbitrarily small change makes the problem infeasible, and the certificate says so
  if (cls <= 3 && r.st() == OSQP_PRIMAL_INFEASIBLE && p.m) { c.label("barely-feasible"); check_pinf(c, p, q, r); return; }
  CHECK(c, r.st() == want, std::string("class:") + kn[cls], "%s problem ended with '%s' after %d iterations", kn[cls], r.info.status, (int)r.info.iter);
  c.label(r.info.iter <= 100 ? "iter<=100" : r.info.iter <= 1000 ? "iter<=1000" : r.info.iter <= 4000 ? "iter<=4000" : "iter>4000");
  if (p.m || p.P.nnz()) c.nontrivial();
  // the iteration limit does not influence an answer found within it
  OSQPSettings t = st; int it = (int)r.info.iter; t.max_iter = it + (s.chance(1, 2) ? 0 : s.range(1, 30)); Osqp q2; q2.setup(p, t); Result r2 = q2.run();
  if (t.max_iter >= it) { CHECK(c, r2.st() == want && r2.info.iter == it, "class:limit", "with max_iter %d: '%s' after %d iterations; with %d: '%s' after %d", (int)st.max_iter, r.info.status, it, (int)t.max_iter, r2.info.status, (int)r2.info.iter); std::string d = diff_results(r, r2, 1e-9, 1e-9); CHECK(c, d.empty(), "class:limit-result", "iteration limit %d changed the result: %s", (int)t.max_iter, d.c_str()); }
}
