// C32: the iterates are those of the documented method.
#include "ref.hpp"
PROPERTY(C32, iterates, 1, "the reference stayed unambiguous for at least three iterations") {
  GenOpt o; o.well = s.chance(2, 3); o.nmax = 7; o.mmax = 9; Prob p = gen_any(s, o); SetOpt so; so.tol = false; so.polish = false; so.linsys = false; so.wild = false; OSQPSettings st = gen_settings(s, so); st.check_termination = 0; st.eps_abs = (OSQPFloat)1e-30; st.eps_rel = (OSQPFloat)1e-30; st.eps_prim_inf = st.eps_dual_inf = (OSQPFloat)1e-30; st.scaled_termination = 0; st.max_iter = s.range(1, 40);
  if (s.chance(1, 2)) st.adaptive_rho = 0; if (st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME) st.adaptive_rho = 1; if (st.adaptive_rho && s.chance(1, 2)) { st.adaptive_rho_interval = s.range(1, 12); st.adaptive_rho_tolerance = (OSQPFloat)(1 + 0.5 * s.range(0, 6)); }
  if (s.chance(1, 3)) st.alpha = (OSQPFloat)(0.05 + 1.9 * s.unit()); if (s.chance(1, 3)) st.sigma = (OSQPFloat)(1e-6 * pow(10.0, 6 * s.unit())); if (s.chance(1, 3)) st.rho = (OSQPFloat)(1e-3 * pow(10.0, 5 * s.unit()));
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); VL D, E; ld cc; if (!factors(q, p, (int)st.scaling, D, E, cc)) c.discard(); RefPair R; R.init(p, st, D, E, cc, true); int rounds = s.range(1, 3), total = 0; OSQPSettings now = st;
  for (int k = 0; k < rounds; k++) {
    if (k || s.chance(1, 3)) switch (s.range(0, k ? 5 : 1)) {
      case 0: break;
      case 1: { Op w = gen_warm(s, p); log_op(c, w); if (apply_op(q, w)) break; R.a.warm(w.hx ? &w.x : nullptr, w.hy ? &w.y : nullptr); R.b.warm(w.hx ? &w.x : nullptr, w.hy ? &w.y : nullptr); now.warm_starting = 1; break; }
      case 2: { Op v = gen_vec(s, p, true); log_op(c, v); if (apply_op(q, v) == 0) { model_op(p, v); R.init(p, now, D, E, cc, false); } break; }
      case 3: { double r = 0.01 * s.range(1, 500); c.log("op update_rho %g", r); if (osqp_update_rho(q.s, (OSQPFloat)r) == 0) { R.a.set_rho((OSQPFloat)r); R.b.set_rho((OSQPFloat)r); } break; }
      case 4: { OSQPSettings t = *q.s->settings; t.alpha = (OSQPFloat)(0.2 + 1.7 * s.unit()); t.warm_starting = s.range(0, 1); c.log("op update_settings alpha %g warm %d", (double)t.alpha, (int)t.warm_starting); if (osqp_update_settings(q.s, &t) == 0) { now.alpha = t.alpha; now.warm_starting = t.warm_starting; R.a.alpha = R.b.alpha = t.alpha; } break; }
      default: { c.log("op cold_start"); osqp_cold_start(q.s); R.a.cold(); R.b.cold(); } }
    if (k) { OSQPSettings t = *q.s->settings; t.max_iter = s.range(1, 30); osqp_update_settings(q.s, &t); now.max_iter = t.max_iter; }
    int u0 = R.a.updates, i0 = (int)q.s->info->rho_updates; Result r = q.run(); c.log("max_iter %d -> %s iter %d rho %g updates %d", (int)now.max_iter, st_name(r.st()), (int)r.info.iter, (double)q.s->settings->rho, (int)r.info.rho_updates); if (!r.hasSol || (int)r.info.iter != (int)now.max_iter || r.x.empty() || is_na(r.x)) { c.label("ended-early"); break; }
    R.run(now, (int)q.s->settings->adaptive_rho_interval); if (!R.ok) { c.label(std::string("stopped: ") + R.why); break; } if (R.a.amb) break; total += (int)now.max_iter;
    VL X = R.X(), Y = R.Y(); ld sx = 1 + ninf(X), sy = 1 + ninf(Y), rel = sizeof(OSQPFloat) == 8 ? 2e-8L : 1e-3L, tx = R.tolx(rel), ty = R.toly(rel); if (tx > 1e-3L * sx || ty > 1e-3L * sy) { c.label("ill-conditioned"); break; }
    if (k == rounds - 1 || c.verbose) c.log("   sensitivity %.2Lg %.2Lg", R.dx, R.dy);
    for (int j = 0; j < p.n; j++) CHECK(c, fabsl((ld)r.x[j] - X[j]) <= tx, "iterate:x", "after %d iterations (solve %d) x[%d] is %.15g, the documented method gives %.15Lg", (int)r.info.iter, k + 1, j, (double)r.x[j], X[j]);
    for (int i = 0; i < p.m; i++) CHECK(c, fabsl((ld)r.y[i] - Y[i]) <= ty, "iterate:y", "after %d iterations (solve %d) y[%d] is %.15g, the documented method gives %.15Lg", (int)r.info.iter, k + 1, i, (double)r.y[i], Y[i]);
    CHECK(c, (int)r.info.rho_updates - i0 == R.a.updates - u0, "rho:updates", "%d step-size changes reported, the documented rule makes %d", (int)r.info.rho_updates - i0, R.a.updates - u0);
    CHECK(c, fabsl((ld)q.s->settings->rho - R.a.rho) <= (1e-4L + 3e4L * fabsl(R.b.rho - R.a.rho) / R.a.rho) * R.a.rho, "rho:value", "step size %.10g, the documented rule gives %.10Lg", (double)q.s->settings->rho, R.a.rho);
    if (!R.a.tiny && !R.b.tiny && fabsl(R.a.est - R.b.est) < 1e-9L * R.a.est) { CHECK(c, fabsl((ld)r.info.rho_estimate - R.a.est) <= (1e-4L + 3e4L * fabsl(R.a.est - R.b.est) / R.a.est) * R.a.est, "rho:estimate", "estimate %.10g, expected %.10Lg", (double)r.info.rho_estimate, R.a.est); c.label("estimate"); }
    if (R.a.updates) c.label("adapted"); if (st.scaling) c.label("scaled"); if (k) c.label("second-solve"); if (total >= 3) c.nontrivial(); }
}
