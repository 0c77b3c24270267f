// C04/C05: infeasibility is reported only with a certificate, and never where it is impossible.
#include "hist.hpp"
static ld norm1(const VL& v) { ld r = 0; for (auto x : v) r += fabsl(x); return r; }
static void eps_set(Src& s, OSQPSettings& st) { if (s.chance(1, 2)) { static const double k[] = {1e-4, 1e-2, 1e-6, 1e-3, 1e-8}; st.eps_prim_inf = (OSQPFloat)k[s.draw(5)]; st.eps_dual_inf = (OSQPFloat)k[s.draw(5)]; } }
static void cert_history(Src& s, Ctx& c, bool pinf) {
  GenOpt o; Prob p = s.chance(1, 4) ? gen_any(s, o) : pinf ? gen_pinf(s, o) : gen_dinf(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); eps_set(s, st); if (st.max_iter > 3000) st.max_iter = 3000; if (s.chance(1, 8)) st.allocate_solution = 0; if (s.chance(1, 3)) st.max_iter = s.range(1, 100);
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard();
  OpOpt oo; oo.so = so; oo.so.limits = true; int len = s.range(1, 5);
  for (int i = 0; i < len; i++) {
    Op op; if (i == 0 || i == len - 1) op.k = O_SOLVE; else op = gen_op(s, p, st, oo); log_op(c, op);
    if (op.k == O_SOLVE) { Result r = q.run(); c.log("   status %s iter %d", st_name(r.st()), (int)r.info.iter); c.label(std::string("status:") + st_name(r.st()));
      if (pinf && st_pinf(r.st())) { if (check_pinf(c, p, q, r)) c.nontrivial(); if (s.chance(1, 4)) { Result g = q.get(); (void)g; } }
      if (!pinf && st_dinf(r.st())) { if (check_dinf(c, p, q, r)) c.nontrivial(); }
      if (st_solved(r.st())) { CHECK(c, is_na(r.pc) && is_na(r.dc), "cert:marker", "solved but a certificate is not marked as not available"); CHECK(c, fabs((double)r.info.obj_val) < 1e30, "cert:objective", "solved with objective %g", (double)r.info.obj_val); }
    } else { int f = apply_op(q, op); if (f && op.k == O_MAT) c.discard(); if (!f) model_op(p, op); }
  }
}
PROPERTY(C04, history, 3, "a solve ended primal infeasible and its certificate was recomputed") { cert_history(s, c, true); }
PROPERTY(C05, history, 3, "a solve ended dual infeasible and its certificate was recomputed") { cert_history(s, c, false); }
PROPERTY(C04, impossible, 1, "a point with slack larger than the tolerance times its 1-norm exists and at least one check was done") {
  GenOpt o; Prob p = gen_feas(s, o); if (!p.m) c.discard(); SetOpt so; so.scaledTerm = false; OSQPSettings st = gen_settings(s, so); eps_set(s, st); st.max_iter = s.range(1, 2000); if (!st.check_termination) st.check_termination = 1;
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); ld need = 10 * st.eps_prim_inf * norm1(p.x0);
  if (!(p.slack > need * (1 + 1e-6L) + 1e-9L)) c.discard();
  for (int k = 0; k < 2; k++) { Result r = q.run(); c.log("status %s iter %d", st_name(r.st()), (int)r.info.iter); CHECK(c, !st_pinf(r.st()), "pinf:impossible", "status '%s' although a point has slack %g in every constraint (tolerance reach %Lg)", r.info.status, p.slack, need); if (r.info.iter > 1) c.nontrivial(); if (s.chance(1, 2)) q.upd_q(p.q); }
}
PROPERTY(C05, impossible, 1, "the cost is strictly convex beyond the reach of the tolerance and at least one check was done") {
  GenOpt o; o.pd = true; Prob p = s.chance(1, 4) ? gen_pinf(s, o) : gen_kkt(s, o); SetOpt so; so.scaledTerm = false; OSQPSettings st = gen_settings(s, so); eps_set(s, st); st.max_iter = s.range(1, 2000); if (!st.check_termination) st.check_termination = 1;
  double lm = min_eig(denseSym(p.P), p.n); if (!(lm > 10 * 2 * st.eps_dual_inf * sqrt((double)p.n))) c.discard();
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard();
  for (int k = 0; k < 2; k++) { Result r = q.run(); c.log("status %s iter %d", st_name(r.st()), (int)r.info.iter); CHECK(c, !st_dinf(r.st()), "dinf:impossible", "status '%s' although the cost is strictly convex (smallest eigenvalue %g)", r.info.status, lm); if (r.info.iter > 1) c.nontrivial(); }
}
