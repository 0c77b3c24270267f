// C03: info describes the returned point, on every terminating branch, along histories.
#include "hist.hpp"
PROPERTY(C03, history, 1, "at least one solve that returned a solution with nonzero objective or residual was recomputed") {
  GenOpt o; if (s.chance(1, 8)) { o.nmax = 25; o.mmax = 30; } Prob p = gen_any(s, o); SetOpt so; so.timed = true; OSQPSettings st = gen_settings(s, so);
  if (s.chance(1, 3)) st.max_iter = s.range(1, 40); if (s.chance(1, 6)) { static const double tl[] = {1e-5, 3e-5, 1e-4, 1e-3}; st.time_limit = (OSQPFloat)tl[s.draw(4)]; } if (s.chance(1, 10)) st.allocate_solution = 0;
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard();
  OpOpt oo; oo.so = so; int len = s.range(1, 6); bool first = true;
  for (int i = 0; i < len; i++) {
    Op op; if (first || i == len - 1) op.k = O_SOLVE; else op = gen_op(s, p, st, oo); first = false; log_op(c, op);
    if (op.k == O_SOLVE) { Result r = q.run(); c.log("   status %s iter %d polish %d obj %.17g prim %g dual %g gap %g", st_name(r.st()), (int)r.info.iter, (int)r.info.status_polish, (double)r.info.obj_val, (double)r.info.prim_res, (double)r.info.dual_res, (double)r.info.duality_gap); c.label(std::string("status:") + st_name(r.st())); if (r.info.status_polish) c.label(r.info.status_polish == 1 ? "polish:ok" : "polish:other");
      check_info(c, p, q, r); if (st_hassol(r.st()) && (r.info.obj_val != 0 || r.info.dual_res != 0)) c.nontrivial();
      CHECK(c, r.info.iter >= 1 && r.info.iter <= q.s->settings->max_iter, "info:iter-range", "iter %d outside 1..max_iter %d", (int)r.info.iter, (int)q.s->settings->max_iter);
    } else { int f = apply_op(q, op); if (f && op.k == O_MAT) c.discard(); if (!f) model_op(p, op); }
  }
}
// the reported integral of the duality gap is the sum of the absolute gaps at the points evaluated: with a check at every
// iteration, those are all the points of the run, and each is the end of a run stopped there
PROPERTY(C03, gap_integral, 1, "the run made at least two iterations with nonzero gaps") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; so.linsys = false; so.polish = false; OSQPSettings st = gen_settings(s, so); st.polishing = 0; st.check_termination = 1; st.adaptive_rho = 0; st.time_limit = (OSQPFloat)1e10; st.max_iter = s.range(1, 25); st.scaled_termination = 0; if (s.chance(1, 3)) st.polishing = 1;   // the polished point is not an iterate
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); Result r = q.run(); int I = (int)r.info.iter; c.log("status %s iter %d integral %.17g", st_name(r.st()), I, (double)r.info.primdual_int);
  OSQPSettings ti = st; ti.polishing = 0; ti.eps_abs = (OSQPFloat)1e-37; ti.eps_rel = 0; ti.eps_prim_inf = ti.eps_dual_inf = (OSQPFloat)1e-37; ld sum = 0, big = 0; int nz = 0;
  for (int k = 1; k <= I; k++) { ti.max_iter = k; Osqp t; if (t.setup(p, ti)) c.discard(); Result w = t.run(); if (w.info.iter != k) { c.label("twin-stopped"); c.discard(); } ld g = fabsl((ld)w.info.duality_gap); Resid R = residuals(p, w.x, w.y); big = std::max(big, std::max(fabsl(R.xPx), std::max(fabsl(R.qx), fabsl(R.sup)))); if (g != 0) nz++; sum += g; }
  if (I >= 2 && nz >= 2) c.nontrivial(); if (!(sum < 1e25L)) c.discard(); const ld e = sizeof(OSQPFloat) == 8 ? 1e-9L : 1e-3L;
  CHECK(c, fabsl((ld)r.info.primdual_int - sum) <= e * sum + e * 1e-3L * big * I, "info:gap-integral", "reported integral of the duality gap %.12g, the absolute gaps at the %d points evaluated add up to %.12Lg", (double)r.info.primdual_int, I, sum);
}
