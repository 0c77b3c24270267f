// C14: iteration limit, time limit and check interval.
#include "hist.hpp"
static bool definite(int v) { return v == OSQP_SOLVED || v == OSQP_PRIMAL_INFEASIBLE || v == OSQP_DUAL_INFEASIBLE; }
PROPERTY(C14, iterations, 3, "a solve stopped at a limit or at a check before the limit") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); OpOpt oo; oo.so = so; oo.wSolve = 2; int k = s.range(0, 4);
  for (int i = 0; i <= k; i++) {
    if (i) { Op op = gen_op(s, p, st, oo); log_op(c, op); if (apply_op(q, op) == 0) model_op(p, op); if (s.chance(1, 2)) { OSQPSettings t = *q.s->settings; t.max_iter = s.range(1, 120); t.check_termination = s.range(0, 30); osqp_update_settings(q.s, &t); } }
    const OSQPSettings z = *q.s->settings; Result r = q.run(); int v = r.st(), it = (int)r.info.iter; c.log("max_iter %d check %d -> %s iter %d", (int)z.max_iter, (int)z.check_termination, st_name(v), it);
    CHECK(c, it >= 1 && it <= z.max_iter, "limit:iter", "%d iterations with max_iter %d", it, (int)z.max_iter);
    if (it < z.max_iter) { CHECK(c, z.check_termination && it % z.check_termination == 0, "limit:check-interval", "stopped after %d of %d iterations, check interval %d, status '%s'", it, (int)z.max_iter, (int)z.check_termination, r.info.status); CHECK(c, definite(v) || (v == OSQP_NON_CVX && (r.info.prim_res > OSQP_INFTY || r.info.dual_res > OSQP_INFTY)), "limit:early-status", "stopped after %d of %d iterations with status '%s'", it, (int)z.max_iter, r.info.status); c.label("early"); }
    else c.label("at-limit");
    CHECK(c, v != OSQP_TIME_LIMIT_REACHED && v != OSQP_UNSOLVED, "limit:status", "status '%s' without a time limit", r.info.status);
    c.nontrivial();
  }
}
// the solve stops at the first check that would succeed: the status at every earlier check point, asked by an iteration
// limit there, is not definite, and the limit at the stopping point gives the same answer
PROPERTY(C14, first_check, 3, "a solve stopped at its second or later check") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; so.linsys = false; so.polish = false; so.limits = false; OSQPSettings st = gen_settings(s, so); st.adaptive_rho = 0; if (!st.check_termination) st.check_termination = s.range(1, 20); st.max_iter = 1500; log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); bool w = s.chance(1, 3); Op ws = gen_warm(s, p); if (w) { log_op(c, ws); apply_op(q, ws); } Result r = q.run(); int K = (int)r.info.iter, ct = (int)st.check_termination; c.log("%s iter %d", st_name(r.st()), K);
  int last = definite(r.st()) ? K : (int)st.max_iter; std::vector<int> pts; for (int j = 0; j < 5; j++) { int nck = last / ct; if (nck < 1) break; pts.push_back(ct * s.range(1, nck)); } if (definite(r.st())) { pts.push_back(K); if (K > ct) { pts.push_back(K - ct); pts.push_back(ct); } }
  for (int kk : pts) { OSQPSettings t = st; t.max_iter = kk; t.check_termination = 0; Osqp b; if (b.setup(p, t)) c.discard(); if (w) apply_op(b, ws); Result z = b.run(); CHECK(c, (int)z.info.iter == kk, "limit:no-check", "with checking disabled the solve stopped after %d of %d iterations", (int)z.info.iter, kk);
    if (kk < last || !definite(r.st())) CHECK(c, !definite(z.st()), "limit:missed-check", "the criteria for '%s' are met after %d iterations, but with a check every %d the solve went on to %d", z.info.status, kk, ct, K);
    else { CHECK(c, z.st() == r.st(), "limit:same-status", "after %d iterations: '%s' at a check, '%s' at the limit", kk, r.info.status, z.info.status); std::string d = diff_results(r, z, 0, 0); CHECK(c, d.empty(), "limit:same-point", "stopping at a check or at the limit after %d iterations differs: %s", kk, d.c_str()); } }
  if (definite(r.st()) && K > ct) c.nontrivial();
}
static void jump() { vclk_advance(1e7); }
// the clock jumps past the limit at its j-th reading: later jumps stop the solve at most one iteration later each, and the
// outcome is that of an iteration limit at that point
PROPERTY(C14, time_jump, 3, "the time limit struck before the natural end of the solve") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; so.linsys = false; so.polish = false; OSQPSettings st = gen_settings(s, so); st.max_iter = s.range(5, 60); st.adaptive_rho = s.chance(1, 3) ? 1 : 0; if (st.adaptive_rho_interval == 0) st.adaptive_rho_interval = 7; st.time_limit = 1000; bool later = s.chance(1, 2); log_prob(c, p); log_settings(c, st);
  auto start = [&](Osqp& q) { if (q.setup(p, st)) return false; if (later) { q.run(); osqp_cold_start(q.s); osqp_update_rho(q.s, st.rho); } return true; };
  Osqp n; if (!start(n)) c.discard(); Result nat = n.run(); int K0 = (int)nat.info.iter; c.log("natural end: %s after %d", st_name(nat.st()), K0);
  int j0 = s.range(1, 25), prev = -1; for (int j = j0; j < j0 + 3; j++) { Osqp q; start(q); vclk_on_call(j, jump); Result r = q.run(); vclk_on_call(0, nullptr); int K = (int)r.info.iter; if (r.info.run_time < st.time_limit) { prev = -1; c.log("jump at reading %d not within the run", j); continue; } c.log("jump at reading %d: %s after %d", j, st_name(r.st()), K);
    if (prev >= 0) CHECK(c, K >= prev && K - prev <= 1, "time:late", "time runs out one clock reading later and the solve stops %d instead of at most 1 iteration later (%d, then %d)", K - prev, prev, K); CHECK(c, K == K0 || K <= std::max(1, j - 1), "time:late", "time runs out at clock reading %d of the solve, which goes on for %d iterations", j, K); prev = K;
    if (K < K0) { c.nontrivial(); OSQPSettings t = st; t.max_iter = K; t.time_limit = (OSQPFloat)1e10; Osqp b; if (b.setup(p, st)) c.discard(); if (later) { b.run(); osqp_cold_start(b.s); osqp_update_rho(b.s, st.rho); } osqp_update_settings(b.s, &t); Result z = b.run();
      int want = z.st() == OSQP_MAX_ITER_REACHED ? OSQP_TIME_LIMIT_REACHED : z.st(); CHECK(c, r.st() == want, "time:status", "stopped by the time limit after %d iterations with '%s'; an iteration limit there gives '%s'", K, r.info.status, z.info.status);
      z.info.status_val = r.info.status_val; if (st.adaptive_rho) { z.info.rho_estimate = r.info.rho_estimate; z.info.rho_updates = r.info.rho_updates; } std::string d = diff_results(r, z, 0, 0); CHECK(c, d.empty(), "time:point", "stopped by the time limit after %d iterations, compared with an iteration limit there: %s", K, d.c_str());
      CHECK(c, r.info.run_time >= st.time_limit * 0.999999, "time:early", "stopped by the time limit after %g s, limit %g", (double)r.info.run_time, (double)st.time_limit); } }
}
static double jumpBy;
// a steadily running clock: the limit is respected to within one iteration, and never strikes early
PROPERTY(C14, time_steady, 2, "the time limit struck") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); st.polishing = 0; if (s.chance(1, 2)) st.check_termination = 0; st.max_iter = 3000; double step = 0.001 * s.range(1, 50); st.time_limit = (OSQPFloat)(step * (0.5 + s.range(1, 120))); vclk_set_step(step); log_prob(c, p); log_settings(c, st); c.log("clock step %g", step);
  Osqp q; if (q.setup(p, st)) c.discard(); int n = s.range(1, 3);
  for (int k = 0; k < n; k++) { if (k && s.chance(1, 2)) { Op v = gen_vec(s, p, true); if (apply_op(q, v) == 0) model_op(p, v); }
    bool jump = false; if (k && s.chance(1, 2)) { static const double f[] = {0.25, 0.5, 0.9, 1.5}; jumpBy = st.time_limit * f[s.draw(4)]; jump = true; vclk_on_call(2, [] { vclk_advance(jumpBy); }); Op v = gen_vec(s, p, true); if (apply_op(q, v) == 0) model_op(p, v); vclk_on_call(0, nullptr); }   // an update that takes its time, which counts
    double upd = k ? (double)q.s->info->update_time : (double)q.s->info->setup_time; if (jump && upd < jumpBy) c.discard(); vclk_reset_calls(); Result r = q.run(); double L = st.time_limit; c.log("%s iter %d run_time %g limit %g", st_name(r.st()), (int)r.info.iter, (double)r.info.run_time, L);
    bool stopped = r.info.iter < st.max_iter && (!st.check_termination || r.info.iter % st.check_termination); if (r.st() == OSQP_TIME_LIMIT_REACHED || stopped) { c.nontrivial(); CHECK(c, r.info.run_time >= L * 0.999, "time:early", "stopped by the time limit after %g s, limit %g", (double)r.info.run_time, L); }
    // after the reading that passed the limit only a few more are made
    CHECK(c, r.info.run_time <= std::max(L, upd) + 12 * step, "time:late", "run time %g s with a limit of %g and one clock reading every %g s", (double)r.info.run_time, L, step); }
}
// the verdict at a limit is complete: a final point that clearly meets the strict or relaxed criteria, or a final step that
// clearly is a certificate, is not left undecided (and what clearly meets the strict criteria is not called inaccurate)
static Prob any_or_infeasible(Src& s) { GenOpt o; return gen_any(s, o); }
PROPERTY(C14, final_verdict, 4, "the final point or step met a criterion by a clear margin") {
  Prob p = any_or_infeasible(s); SetOpt so; so.linsys = false; so.polish = false; so.limits = false; so.scaledTerm = false; OSQPSettings st = gen_settings(s, so); st.scaled_termination = 0; st.adaptive_rho = 0; st.check_termination = 0; st.polishing = 0; int K = s.chance(1, 2) ? s.range(2, 60) : s.range(2, 1200);
  static const double te[] = {1e-3, 1e-1, 1e-2, 1e-4, 1e-6, 0}; st.eps_abs = (OSQPFloat)te[s.draw(6)]; st.eps_rel = (OSQPFloat)te[s.draw(6)]; if (st.eps_abs == 0 && st.eps_rel == 0) st.eps_abs = (OSQPFloat)1e-3; st.eps_prim_inf = (OSQPFloat)te[s.draw(5)]; st.eps_dual_inf = (OSQPFloat)te[s.draw(5)]; st.max_iter = K; log_prob(c, p); log_settings(c, st);
  OSQPSettings ti = st; ti.eps_abs = (OSQPFloat)1e-37; ti.eps_rel = 0; ti.eps_prim_inf = ti.eps_dual_inf = (OSQPFloat)1e-37; Osqp q, qa, qb; if (q.setup(p, st)) c.discard(); if (qb.setup(p, ti)) c.discard(); Result b = qb.run(); ti.max_iter = K - 1; if (qa.setup(p, ti)) c.discard(); Result a = qa.run(); Result r = q.run(); int v = r.st();
  c.log("verdict '%s'; with nothing accepted '%s' then '%s'", r.info.status, a.info.status, b.info.status); if (!st_hassol(a.st()) || !st_hassol(b.st())) c.discard(); for (auto w : b.x) if (!(fabs(w) < 1e12)) c.discard(); for (auto w : b.y) if (!(fabs(w) < 1e12)) c.discard();
  const ld e9 = sizeof(OSQPFloat) == 8 ? 1e-9L : 1e-3L, rnd = sizeof(OSQPFloat) == 8 ? 1e-12L : 1e-5L; Resid R = residuals(p, b.x, b.y); ld pr = b.info.prim_res, dr = b.info.dual_res, gp = fabsl((ld)b.info.duality_gap), gn = std::max(fabsl(R.xPx), std::max(fabsl(R.qx), fabsl(R.sup))), dn = std::max(R.nq, std::max(R.nAty, R.nPx));
  auto met = [&](ld f) { ld ea = f * st.eps_abs * (1 - e9), er = f * st.eps_rel * (1 - e9); return (p.m == 0 || pr < ea + er * R.nAx - rnd * R.aAx * er) && dr < ea + er * dn - rnd * er * (R.aAty + R.aPx) && (!st.check_dualgap || gp < ea + er * gn); };
  auto noP = [&](ld f) { return p.m && pr > f * (1 + e9) * (st.eps_abs + st.eps_rel * (R.nAx + pr)) + rnd * R.aAx; }; auto noD = [&](ld f) { return dr > f * (1 + e9) * (st.eps_abs + st.eps_rel * dn) + rnd * (R.aAty + R.aPx); };
  // the last step as certificates, with the rounding of the difference
  V D, E, Di, Ei; double cs = 1, ci = 1; bool sc = st.scaling != 0, thr = false; if (sc) { if (peek_scaling(q.s, D, E, Di, Ei, cs, ci)) { for (int i = 0; i < p.m; i++) if (E[i] < 1.1e-4 || fabs((double)p.l[i]) * E[i] > 1e25 != is_inf_bound(p.l[i]) || fabs((double)p.u[i]) * E[i] > 1e25 != is_inf_bound(p.u[i])) thr = true; } else thr = true; }
  VL dy(p.m), dx(p.n); ld ny = 1, nx = 1; for (int i = 0; i < p.m; i++) { dy[i] = (ld)b.y[i] - a.y[i]; ny = std::max(ny, fabsl((ld)b.y[i])); if (is_inf_bound(p.u[i]) && dy[i] > 0) dy[i] = 0; if (is_inf_bound(p.l[i]) && dy[i] < 0) dy[i] = 0; } for (int j = 0; j < p.n; j++) { dx[j] = (ld)b.x[j] - a.x[j]; nx = std::max(nx, fabsl((ld)b.x[j])); }
  ld Ny = ninf(dy), Nx = ninf(dx), ey = rnd * 100 * ny, ex = rnd * 100 * nx, am = 0, pm = 0; for (auto w : p.A.x) am += fabsl((ld)w); for (auto w : p.P.x) pm += 2 * fabsl((ld)w);
  auto pc = [&](ld f) { if (thr || !p.m || Ny < 1e-6L || Ny < 10 * ey) return false; ld h = 0, m = 0; for (int i = 0; i < p.m; i++) { ld w = dy[i] > 0 ? (ld)p.u[i] : (ld)p.l[i]; if (dy[i] != 0) h += w * dy[i]; if (!is_inf_bound(p.l[i])) m += fabsl((ld)p.l[i]); if (!is_inf_bound(p.u[i])) m += fabsl((ld)p.u[i]); } return h < -ey * m - rnd && ninf(mulAt(p.A, dy)) + am * ey < f * st.eps_prim_inf * (1 - e9) * (Ny - ey); };
  auto dc = [&](ld f) { if (thr || Nx < 1e-6L || Nx < 10 * ex) return false; ld h = 0, m = 0; for (int j = 0; j < p.n; j++) { h += (ld)p.q[j] * dx[j]; m += fabsl((ld)p.q[j]); } ld t = f * st.eps_dual_inf * (1 - e9) * (Nx - ex); if (!(h < -ex * m - rnd) || !(ninf(mulP(p.P, dx)) + pm * ex < t)) return false; VL Ad = mulA(p.A, dx); for (int i = 0; i < p.m; i++) if ((!is_inf_bound(p.u[i]) && Ad[i] + am * ex > t) || (!is_inf_bound(p.l[i]) && Ad[i] - am * ex < -t)) return false; return true; };
  if (pr > 1e29L || dr > 1e29L) c.discard();
  auto inf = [](int v) { return v == OSQP_PRIMAL_INFEASIBLE || v == OSQP_DUAL_INFEASIBLE; }; auto infa = [](int v) { return v == OSQP_PRIMAL_INFEASIBLE_INACCURATE || v == OSQP_DUAL_INFEASIBLE_INACCURATE; };
  bool s1 = met(1), s10 = met(10), p1 = noP(1) && pc(1), p10 = noP(10) && pc(10), d1 = noD(1) && dc(1), d10 = noD(10) && dc(10); c.label(s1 ? "solved" : p1 ? "pinf" : d1 ? "dinf" : s10 ? "solved-inacc" : p10 ? "pinf-inacc" : d10 ? "dinf-inacc" : "open"); if (s1 || s10 || p1 || p10 || d1 || d10) c.nontrivial();
  if (s1) CHECK(c, v == OSQP_SOLVED, "verdict:solved", "the final point meets the criteria (prim %Lg dual %Lg gap %Lg) but the status is '%s'", pr, dr, gp, r.info.status);
  else if (p1 || d1) CHECK(c, inf(v), "verdict:infeasible", "the final step is a %s infeasibility certificate but the status is '%s'", p1 ? "primal" : "dual", r.info.status);
  else if (s10) CHECK(c, v == OSQP_SOLVED || v == OSQP_SOLVED_INACCURATE || inf(v), "verdict:solved-inaccurate", "the final point meets the relaxed criteria (prim %Lg dual %Lg gap %Lg) but the status is '%s'", pr, dr, gp, r.info.status);
  else if (p10 || d10) CHECK(c, inf(v) || infa(v), "verdict:infeasible-inaccurate", "the final step is a relaxed %s infeasibility certificate but the status is '%s'", p10 ? "primal" : "dual", r.info.status);
  if (p1 && !noD(1)) CHECK(c, v == OSQP_PRIMAL_INFEASIBLE, "verdict:primal", "'%s' though only the primal criterion fails", r.info.status);
}
