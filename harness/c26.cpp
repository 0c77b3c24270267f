// C26: step-size policy.
#include "ref.hpp"
static const double RMIN = 1e-6, RMAX = 1e6;
// one cold solve is replayed with every iteration limit: the step size after k iterations is observed for all k
PROPERTY(C26, trace, 3, "the step size was adapted at least once") {
  GenOpt o; o.nmax = 5; o.mmax = 7; Prob p = gen_any(s, o); SetOpt so; so.polish = false; OSQPSettings st = gen_settings(s, so); st.adaptive_rho = s.range(0, 3); if (s.chance(2, 3)) { static const int k[] = {0, 1, 2, 3, 5, 8, 13, 50}; st.adaptive_rho_interval = k[s.draw(8)]; } if (s.chance(2, 3)) { static const double f[] = {1, 1.1, 1.5, 2, 5, 100}; st.adaptive_rho_tolerance = (OSQPFloat)f[s.draw(6)]; } if (s.chance(1, 2)) { static const double f[] = {0.4, 0.99, 0.5, 1.5, 1e3}; st.adaptive_rho_fraction = (OSQPFloat)f[s.draw(5)]; }
  bool timed = st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME; double step = 1e-6; if (timed) { step = 1e-6 * s.range(1, 30); vclk_set_step(step); if (s.chance(2, 3)) st.adaptive_rho_interval = 0; if (s.chance(1, 2)) st.adaptive_rho_fraction = (OSQPFloat)(1.0 * s.range(1, 12)); } st.time_limit = (OSQPFloat)1e10;
  int K = s.range(4, 48); st.max_iter = K; bool mid = s.chance(1, 3), warm = s.chance(1, 3), rho = s.chance(1, 4); Op vec = gen_vec(s, p, true), wm = gen_warm(s, p); int r1 = s.range(1, 30); double rv = 0.02 * s.range(1, 100); log_prob(c, p); log_settings(c, st); if (mid) { c.log("first solved with at most %d iterations, then updated:", r1); log_op(c, vec); } if (warm) log_op(c, wm); if (rho) c.log("update_rho %g", rv);
  int ct = (int)st.check_termination; double tol = st.adaptive_rho_tolerance, fr = st.adaptive_rho_fraction; double prev = 0; int ups = 0, interval = 0; std::vector<double> trace; double lastk = 1e30, kk = 0; bool ambk = false, started = false;
  for (int k = 0; k <= K; k++) {
    Osqp q; OSQPSettings t = st; t.max_iter = mid ? r1 : k ? k : 1; if (q.setup(p, t)) c.discard(); if (mid) { q.run(); apply_op(q, vec); if (warm) apply_op(q, wm); else osqp_cold_start(q.s); if (rho) osqp_update_rho(q.s, (OSQPFloat)rv); t = *q.s->settings; t.max_iter = k ? k : 1; osqp_update_settings(q.s, &t); } else { if (warm) apply_op(q, wm); if (rho) osqp_update_rho(q.s, (OSQPFloat)rv); }
    if (!k) { prev = q.s->settings->rho; started = true; CHECK(c, prev >= RMIN * 0.999999 && prev <= RMAX * 1.000001, "rho:range", "step size %g", prev); if (!mid) { double e = rho ? rv : (double)st.rho; CHECK(c, close(prev, std::min(std::max(e, RMIN), RMAX), 1e-6, 0), "rho:initial", "step size %g, requested %g", prev, e); } continue; }
    int u0 = (int)q.s->info->rho_updates; Result r = q.run(); double now = q.s->settings->rho, est = r.info.rho_estimate; int it = (int)r.info.iter, du = (int)r.info.rho_updates - u0; bool changed = now != prev;
    if (it < k || r.st() == OSQP_NON_CVX || r.flag) { c.label("ended-early"); break; }
    CHECK(c, now >= RMIN * 0.999999 && now <= RMAX * 1.000001 && est >= RMIN * 0.999999 && est <= RMAX * 1.000001, "rho:range", "after %d iterations: step size %g, estimate %g", k, now, est);
    int in = (int)q.s->settings->adaptive_rho_interval;
    // the run stops at a check with a definite status before it adapts
    bool term = it == k && ct && k % ct == 0 && (r.st() == OSQP_SOLVED || r.st() == OSQP_PRIMAL_INFEASIBLE || r.st() == OSQP_DUAL_INFEASIBLE);
    if (changed) {
      c.nontrivial(); c.label(st.adaptive_rho == 1 ? "adapted:iterations" : timed ? "adapted:time" : "adapted:error");
      CHECK(c, st.adaptive_rho, "rho:disabled", "with adaptation disabled the step size went from %g to %g at iteration %d", prev, now, k);
      CHECK(c, in > 0 && k % in == 0, "rho:interval", "the step size changed at iteration %d, interval %d", k, in);
      CHECK(c, now > prev * tol * (1 - 1e-6) || now < prev / tol * (1 + 1e-6), "rho:factor", "the step size went from %g to %g, factor %g", prev, now, tol);
      ups++;
    }
    // the settings say what interval is in force
    if (st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_DISABLED) CHECK(c, du == 0, "rho:count", "%d changes reported with adaptation disabled", du);
    else if (!timed) { int want = st.adaptive_rho_interval ? (int)st.adaptive_rho_interval : st.adaptive_rho == 3 ? 1 : ct ? 4 * ct : 100; CHECK(c, in == want, "rho:interval-setting", "interval in force %d, expected %d", in, want); }
    else if (st.adaptive_rho_interval) CHECK(c, in == (int)st.adaptive_rho_interval, "rho:interval-setting", "interval in force %d, configured %d", in, (int)st.adaptive_rho_interval);
    else if (in) { CHECK(c, in >= 1 && in >= ct && (in % (ct ? ct : OSQP_CHECK_TERMINATION) == 0 || (!ct && in == 1)), "rho:interval-setting", "measured interval %d with a check every %d iterations", in, ct); CHECK(c, !interval || mid || in == interval, "rho:interval-setting", "the measured interval changed from %d to %d", interval, in); interval = in; c.label("measured"); }
    // 'factor 1' adapts by differences that may be below rounding of the comparison, but never by nothing
    CHECK(c, du == ups, "rho:count", "after %d iterations %d changes reported, the step size changed %d times", k, du, ups);
    trace.push_back(now);
    // an adaptation that was due happened: the estimate with the step size in force says what the rule would have chosen
    bool due = in > 0 && k % in == 0 && st.adaptive_rho && !term, clamp = est <= RMIN * 1.001 || est >= RMAX * 0.999;
    if (st.adaptive_rho == 3 && due) { kk = r.info.rel_kkt_error; ambk = fabs(kk - fr * lastk) <= 1e-9 * (kk + fr * lastk); if (kk > fr * lastk) { if (!ambk) CHECK(c, !changed, "rho:error-not-reduced", "error-based adaptation at iteration %d although the error only went from %g to %g, fraction %g", k, lastk, kk, fr); due = false; } if (ambk) due = false; }
    if (due && !clamp && st.linsys_solver == OSQP_DIRECT_SOLVER && std::isfinite(est)) { double cand = changed ? now : prev * (est / now); /* unchanged: prev == now */
      bool want = cand > prev * tol * (1 + 1e-6) || cand < prev / tol * (1 - 1e-6); CHECK(c, !want || changed, "rho:not-adapted", "at iteration %d the estimate %g differs from the step size %g by more than the factor %g, but it was kept", k, est, prev, tol);
      if (changed) { double ideal = prev * (est / now); if (ideal > RMIN * 1.001 && ideal < RMAX * 0.999) CHECK(c, close(now, ideal, 1e-6, 0), "rho:candidate", "at iteration %d the step size went from %g to %g, the estimate was %g", k, prev, now, ideal); c.label("candidate"); } }
    if (changed && st.adaptive_rho == 3) lastk = r.info.rel_kkt_error;
    prev = now; if (term) break;
  }
  (void)started;
}
// the rule itself, and the weights of equality, ordinary and unbounded constraints, through the iterates of the reference
PROPERTY(C26, reference, 3, "the step size was adapted, or constraints of different classes took part") {
  GenOpt o; o.well = s.chance(3, 4); o.nmax = 6; o.mmax = 8; o.mmin = 1; Prob p = gen_any(s, o); SetOpt so; so.tol = false; so.polish = false; so.linsys = false; so.wild = false; OSQPSettings st = gen_settings(s, so); st.check_termination = 0; st.eps_abs = (OSQPFloat)1e-30; st.eps_rel = (OSQPFloat)1e-30; st.eps_prim_inf = st.eps_dual_inf = (OSQPFloat)1e-30; st.scaled_termination = 0;
  for (int i = 0; i < p.m; i++) switch (s.range(0, 7)) { case 1: p.l[i] = p.u[i] = (OSQPFloat)(0.25 * s.range(-4, 4)); break; case 2: p.l[i] = -(OSQPFloat)ginf(s); p.u[i] = (OSQPFloat)ginf(s); break; case 3: { p.l[i] = (OSQPFloat)(0.25 * s.range(-4, 4)); static const double g[] = {1e-3, 5e-5, 1e-5, 2e-4, 1e-6}; p.u[i] = (OSQPFloat)(p.l[i] + g[s.draw(5)]); break; } default: break; }
  st.adaptive_rho = s.range(0, 1) ? (s.range(0, 1) ? 1 : 3) : 0; if (st.adaptive_rho) { st.adaptive_rho_interval = s.range(1, 10); st.adaptive_rho_tolerance = (OSQPFloat)(1 + 0.5 * s.range(0, 8)); st.adaptive_rho_fraction = (OSQPFloat)(0.1 * s.range(1, 12)); } st.max_iter = s.range(1, 40);
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); VL D, E; ld cc; if (!factors(q, p, (int)st.scaling, D, E, cc)) c.discard(); RefPair R; R.init(p, st, D, E, cc, true); OSQPSettings now = st; int rounds = s.range(1, 3); bool mixed = false;
  for (int k = 0; k < rounds; k++) {
    if (k) { if (s.chance(2, 3)) { Op v = gen_vec(s, p, true); log_op(c, v); if (apply_op(q, v) == 0) { model_op(p, v); R.init(p, now, D, E, cc, false); } } if (s.chance(1, 4)) { double r = 0.01 * s.range(1, 500); c.log("op update_rho %g", r); if (osqp_update_rho(q.s, (OSQPFloat)r) == 0) { R.a.set_rho((OSQPFloat)r); R.b.set_rho((OSQPFloat)r); } } OSQPSettings t = *q.s->settings; t.max_iter = s.range(1, 30); osqp_update_settings(q.s, &t); now.max_iter = t.max_iter; }
    V w; if (st.rho_is_vec && peek_rho(q.s, w) && !R.a.amb) for (int i = 0; i < p.m; i++) CHECK(c, close(w[i], (double)R.a.w[i], 1e-5, 0), "weight:class", "constraint %d [%g, %g]: weight %g, its class has %Lg", i, (double)p.l[i], (double)p.u[i], (double)w[i], R.a.w[i]);
    for (int i = 1; i < p.m; i++) if (R.a.w[i] != R.a.w[0]) mixed = true;
    int u0 = R.a.updates, i0 = (int)q.s->info->rho_updates; Result r = q.run(); c.log("max_iter %d -> %s iter %d rho %g updates %d", (int)now.max_iter, st_name(r.st()), (int)r.info.iter, (double)q.s->settings->rho, (int)r.info.rho_updates); if (!r.hasSol || (int)r.info.iter != (int)now.max_iter || r.x.empty() || is_na(r.x)) break;
    R.run(now, (int)q.s->settings->adaptive_rho_interval); c.log("   sensitivity %.2Lg %.2Lg", R.dx, R.dy); if (!R.ok || R.a.amb) { c.label(std::string("stopped: ") + R.why); break; }
    CHECK(c, (int)r.info.rho_updates - i0 == R.a.updates - u0, "rho:updates", "%d step-size changes reported, the documented rule makes %d", (int)r.info.rho_updates - i0, R.a.updates - u0);
    CHECK(c, fabsl((ld)q.s->settings->rho - R.a.rho) <= (1e-4L + 3e4L * fabsl(R.b.rho - R.a.rho) / R.a.rho) * R.a.rho, "rho:value", "step size %.10g, the documented rule gives %.10Lg", (double)q.s->settings->rho, R.a.rho);
    VL X = R.X(), Y = R.Y(); ld sx = 1 + ninf(X), sy = 1 + ninf(Y), rel = sizeof(OSQPFloat) == 8 ? 2e-8L : 1e-3L, tx = R.tolx(rel), ty = R.toly(rel); if (tx > 1e-3L * sx || ty > 1e-3L * sy) { c.label("ill-conditioned"); break; }
    for (int j = 0; j < p.n; j++) CHECK(c, fabsl((ld)r.x[j] - X[j]) <= tx, "weight:iterate", "x[%d] is %.12g, with the documented weights it is %.12Lg", j, (double)r.x[j], X[j]);
    for (int i = 0; i < p.m; i++) CHECK(c, fabsl((ld)r.y[i] - Y[i]) <= ty, "weight:iterate", "y[%d] is %.12g, with the documented weights it is %.12Lg", i, (double)r.y[i], Y[i]);
    if (R.a.updates) c.label("adapted"); if (mixed) c.label("mixed-classes"); if (R.a.updates || (mixed && st.rho_is_vec)) c.nontrivial(); }
}
// the class of a constraint does not depend on how the caller writes infinity, however badly its row is scaled
PROPERTY(C26, infinite_rows, 1, "an unbounded row of very large entries took part") {
  GenOpt o; o.nmax = 5; o.mmax = 6; o.mmin = 1; o.well = true; Prob p = gen_any(s, o); SetOpt so; so.linsys = false; OSQPSettings st = gen_settings(s, so); st.rho_is_vec = 1; int e = s.range(0, 10); double f = pow(10.0, e); int row = (int)s.draw(p.m); for (size_t k = 0; k < p.A.i.size(); k++) if (p.A.i[k] == row) p.A.x[k] = (OSQPFloat)((double)p.A.x[k] * f); p.l[row] = -(OSQPFloat)OSQP_INFTY; p.u[row] = (OSQPFloat)OSQP_INFTY; log_prob(c, p); log_settings(c, st); Osqp q; V w; if (q.setup(p, st)) c.discard(); if (!peek_rho(q.s, w)) c.discard(); c.nontrivial();
  VL D, E; ld cc; if (!factors(q, p, (int)st.scaling, D, E, cc)) c.discard(); bool below = 1e30L * E[row] < 1e26L; if (fabsl(E[row] / 1e-4L - 1) < 1e-6L) c.discard();
  CHECK(c, close(w[row], RMIN, 1e-5, 0), below ? "weight:infinite-bound-scaled-below-threshold" : "weight:infinite", "unbounded constraint %d gets weight %g instead of %g (row scaling %Lg)", row, (double)w[row], RMIN, E[row]); if (e >= 6) c.label("huge");
}
