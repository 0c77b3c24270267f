// C15: polishing never makes the answer worse.
#include "opt.hpp"
// twin runs that differ only in the polishing setting
PROPERTY(C15, twins, 4, "polishing was attempted") {
  GenOpt o; if (s.chance(1, 8)) { o.nmax = 16; o.mmax = 20; } int kd = s.range(0, 5); Prob p = kd == 0 ? gen_lp(s, o) : kd == 1 ? gen_feas(s, o) : kd <= 4 ? gen_kkt(s, o) : gen_any(s, o); SetOpt so; so.polish = false; OSQPSettings st = gen_settings(s, so); if (st.adaptive_rho == 2) st.adaptive_rho_interval = 20; if (s.chance(1, 3)) { static const double k[] = {1e-6, 1e-8, 1e-3, 0.1}; st.eps_abs = st.eps_rel = (OSQPFloat)k[s.draw(4)]; st.max_iter = 10000; } if (s.chance(1, 4)) { static const double k[] = {1e-6, 1e-3, 1e-9, 0.1}; st.delta = (OSQPFloat)k[s.draw(4)]; st.polish_refine_iter = s.range(0, 8); } if (s.chance(1, 8)) st.allocate_solution = 0;
  // stopped early and lopsidedly: one residual small, the other not, the active set often guessed wrong
  if (s.chance(1, 4)) { st.eps_abs = (OSQPFloat)pow(10., -3 * s.unit()); st.eps_rel = s.chance(1, 2) ? 0 : st.eps_abs; st.check_termination = s.range(1, 8); st.check_dualgap = s.chance(1, 3); st.rho = (OSQPFloat)pow(10., s.chance(1, 2) ? 1 + 3 * s.unit() : -1 - 3 * s.unit()); st.adaptive_rho = 0; }
  st.polishing = 0; OSQPSettings sp = st; sp.polishing = 1; log_prob(c, p); log_settings(c, sp); Osqp a, b; if (a.setup(p, st)) c.discard(); b.setup(p, sp); int n = s.range(1, 2);
  for (int k = 0; k < n; k++) {
    if (k) { Op op = gen_vec(s, p, true); log_op(c, op); int f = apply_op(a, op); CHECK(c, apply_op(b, op) == f, "polish:code", "update codes differ"); if (f) c.discard(); model_op(p, op); osqp_cold_start(a.s); osqp_cold_start(b.s); osqp_update_rho(a.s, st.rho); osqp_update_rho(b.s, st.rho); }
    Result x = a.run(), y = b.run(); int ps = (int)y.info.status_polish; c.log("plain: %s iter %d prim %g dual %g gap %g; polished: %s status_polish %d prim %g dual %g gap %g", st_name(x.st()), (int)x.info.iter, (double)x.info.prim_res, (double)x.info.dual_res, (double)x.info.duality_gap, st_name(y.st()), ps, (double)y.info.prim_res, (double)y.info.dual_res, (double)y.info.duality_gap); c.label("polish:" + std::to_string(ps));
    CHECK(c, x.st() == y.st() && x.info.iter == y.info.iter, "polish:status", "polishing changed status or iterations: '%s' %d, '%s' %d", x.info.status, (int)x.info.iter, y.info.status, (int)y.info.iter);
    CHECK(c, x.info.status_polish == OSQP_POLISH_NOT_PERFORMED, "polish:off", "status_polish %d with polishing off", (int)x.info.status_polish);
    CHECK(c, (ps != OSQP_POLISH_NOT_PERFORMED) == (y.st() == OSQP_SOLVED), "polish:performed", "status '%s' and status_polish %d", y.info.status, ps);
    CHECK(c, ps >= OSQP_POLISH_LINSYS_ERROR && ps <= OSQP_POLISH_NO_ACTIVE_SET_FOUND, "polish:code", "status_polish %d", ps);
    if (ps != OSQP_POLISH_SUCCESS) { Result z = y; z.info.status_polish = 0; z.flag = x.flag; std::string d = diff_results(x, z, 0, 0); CHECK(c, d.empty(), "polish:unchanged", "polishing did not succeed (%d) but the answer differs from the unpolished one: %s", ps, d.c_str()); if (ps) c.nontrivial(); continue; }
    c.nontrivial(); double tiny = 1e-10, g = 1 + 1e-9;
    CHECK(c, y.info.prim_res <= std::max((double)x.info.prim_res * g, tiny), "polish:prim", "primal residual %g before and %g after polishing", (double)x.info.prim_res, (double)y.info.prim_res);
    CHECK(c, y.info.dual_res <= std::max((double)x.info.dual_res * g, tiny), "polish:dual", "dual residual %g before and %g after polishing", (double)x.info.dual_res, (double)y.info.dual_res);
    if (st.check_dualgap && !(st.scaling && st.scaled_termination)) CHECK(c, fabs((double)y.info.duality_gap) <= std::max(fabs((double)x.info.duality_gap) * g, (double)st.eps_abs * g), "polish:gap", "duality gap %g before and %g after polishing", (double)x.info.duality_gap, (double)y.info.duality_gap);
    Resid X = residuals(p, x.x, x.y), Y = residuals(p, y.x, y.y); ld rp = 1e-13L * (1 + Y.aAx + X.aAx), rd = 1e-13L * (1 + Y.aAty + Y.aPx + Y.nq);
    if (!(st.scaling && st.scaled_termination)) { bool sc = st.scaling; (void)sc; CHECK(c, Y.pdist <= std::max((ld)x.info.prim_res, (ld)tiny) * 1.0001L + 100 * rp, "polish:prim-true", "constraint violation %Lg after polishing, residual before %g", Y.pdist, (double)x.info.prim_res); CHECK(c, Y.dres <= std::max((ld)x.info.dual_res, (ld)tiny) * 1.0001L + 100 * rd, "polish:dual-true", "dual residual %Lg after polishing, before %g", Y.dres, (double)x.info.dual_res); }
    check_info(c, p, b, y); check_signs(c, p, b, y, 1); if (y.st() == OSQP_SOLVED) check_solved(c, p, b, y);
  }
}
// nondegenerate optimum, active set identified: accurate to near machine precision
PROPERTY(C15, accurate, 3, "the active set was identified and there was at least one active constraint") {
  GenOpt o; o.well = true; o.scaleRows = false; o.pd = true; Prob p = s.chance(1, 3) ? gen_lp(s, o) : gen_kkt(s, o); if (!p.m || !p.strict) c.discard();
  // active rows must be linearly independent
  std::vector<int> act; for (int i = 0; i < p.m; i++) if (p.ys[i] != 0 || p.l[i] == p.u[i]) act.push_back(i); if (act.empty() || (int)act.size() > p.n) c.discard(); { std::vector<double> d = dense(p.A); int k = (int)act.size(); std::vector<double> G(k * k); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) for (int t = 0; t < p.n; t++) G[i * k + j] += d[act[i] * p.n + t] * d[act[j] * p.n + t]; if (min_eig(G, k) < 0.05) c.discard(); for (int i : act) if (p.ys[i] == 0) c.discard(); }
  OSQPSettings st = defaults(); st.eps_abs = st.eps_rel = (OSQPFloat)(s.chance(1, 2) ? 1e-4 : 1e-5); st.max_iter = 20000; st.adaptive_rho = s.chance(1, 2) ? 0 : 1; if (p.kind == K_LP) st.adaptive_rho = 0; if (s.chance(1, 3)) st.scaling = s.range(0, 5); if (s.chance(1, 3)) st.rho_is_vec = 0; if (s.chance(1, 4)) st.polish_refine_iter = s.range(3, 8); if (s.chance(1, 4)) st.delta = (OSQPFloat)1e-7; Osqp a; st.polishing = 0; log_prob(c, p); log_settings(c, st); if (a.setup(p, st)) c.discard(); Result x = a.run(); if (x.st() != OSQP_SOLVED) c.discard();
  // identified: multipliers and slacks of the unpolished answer already tell active from inactive by a clear margin
  Resid R = residuals(p, x.x, x.y); for (int i = 0; i < p.m; i++) { bool on = p.ys[i] != 0; double y = x.y[i]; if (on) { if (y * (double)p.ys[i] <= 0 || fabs(y) < 0.05) c.discard(); double b = y > 0 ? p.u[i] : p.l[i]; if (fabs((double)R.Ax[i] - b) > 0.02 * fabs(y)) c.discard(); } else { if (fabs(y) > 1e-6) c.discard(); double sl = 1e9; if (!is_inf_bound(p.l[i])) sl = std::min(sl, (double)(R.Ax[i] - p.l[i])); if (!is_inf_bound(p.u[i])) sl = std::min(sl, (double)(p.u[i] - R.Ax[i])); if (sl < 0.05) c.discard(); } }
  st.polishing = 1; Osqp b; b.setup(p, st); Result y = b.run(); c.log("plain prim %g dual %g; status_polish %d prim %g dual %g", (double)x.info.prim_res, (double)x.info.dual_res, (int)y.info.status_polish, (double)y.info.prim_res, (double)y.info.dual_res);
  ld err = 0, ey = 0; for (int j = 0; j < p.n; j++) err = std::max(err, fabsl((ld)y.x[j] - p.xs[j])); for (int i = 0; i < p.m; i++) ey = std::max(ey, fabsl((ld)y.y[i] - p.ys[i])); ld e0 = 0; for (int j = 0; j < p.n; j++) e0 = std::max(e0, fabsl((ld)x.x[j] - p.xs[j]));
  if (y.info.status_polish != OSQP_POLISH_SUCCESS && x.info.prim_res < 1e-9 && x.info.dual_res < 1e-9) { c.label("already-exact"); return; }
  bool tiny1 = x.info.prim_res < 1e-9 || x.info.dual_res < 1e-9;
  if (y.info.status_polish != OSQP_POLISH_SUCCESS && tiny1) { c.label("one-residual-exact"); return; }
  CHECK(c, y.info.status_polish == OSQP_POLISH_SUCCESS, "polish:not-accepted", "active set identified, residuals %g and %g, but polishing reports %d", (double)x.info.prim_res, (double)x.info.dual_res, (int)y.info.status_polish);
  double lim = sizeof(OSQPFloat) == 8 ? 1e-8 : 1e-3; CHECK(c, err <= lim, "polish:accuracy-x", "polished solution is off by %Lg (unpolished %Lg)", err, e0); CHECK(c, ey <= lim * 10, "polish:accuracy-y", "polished multipliers are off by %Lg", ey);
  c.nontrivial();
}
// the polished point is the solution of the problem restricted to the constraints guessed active (z - l < -y or l = u: lower,
// u - z < y: upper), computed here in extended precision from the unpolished twin; it is taken over exactly when it is better
PROPERTY(C15, reference, 4, "the reduced system was well conditioned and the outcome predicted") {
  GenOpt o; o.well = s.chance(2, 3); o.scaleRows = s.chance(1, 4); int kd = s.range(0, 6); Prob p = kd == 0 ? gen_lp(s, o) : kd == 1 ? gen_feas(s, o) : gen_kkt(s, o); if (!p.m) c.discard();
  SetOpt so; so.polish = false; so.linsys = false; so.limits = false; so.scaledTerm = false; so.tol = false; OSQPSettings st = gen_settings(s, so); if (st.adaptive_rho == 2) st.adaptive_rho = 1; st.scaled_termination = 0; st.allocate_solution = 1; static const double e[] = {1e-3, 1e-2, 1e-1, 1e-4, 0.5, 1e-5}; st.eps_abs = (OSQPFloat)e[s.draw(6)]; st.eps_rel = (OSQPFloat)e[s.draw(6)]; st.max_iter = 5000; static const int ck[] = {25, 1, 3, 7}; st.check_termination = ck[s.draw(4)]; static const double dl[] = {1e-6, 1e-5, 1e-4, 1e-3, 1e-7}; st.delta = (OSQPFloat)dl[s.draw(5)]; st.polish_refine_iter = s.chance(1, 2) ? 3 : s.range(0, 6); st.polishing = 0; OSQPSettings sp = st; sp.polishing = 1;
  log_prob(c, p); log_settings(c, sp); Osqp a, b; if (a.setup(p, st)) c.discard(); if (b.setup(p, sp)) c.discard(); Result x = a.run(), y = b.run(); if (x.st() != OSQP_SOLVED) c.discard(); int n = p.n, m = p.m; V z, q, l, u, D, E, Di, Ei; double cs = 1, ci = 1; Csc P, A; if (!peek_z(a.s, z) || !peek_data(a.s, q, l, u) || !peek_mats(a.s, P, A)) c.discard(); if (!peek_scaling(a.s, D, E, Di, Ei, cs, ci)) { D.assign(n, 1); E.assign(m, 1); cs = 1; }
  const bool dbl = sizeof(OSQPFloat) == 8; std::vector<int> fl(m), act; VL yh(m); for (int i = 0; i < m; i++) { yh[i] = (ld)x.y[i] * cs / E[i]; ld lo = (ld)z[i] - l[i] + yh[i], up = (ld)u[i] - z[i] - yh[i], tie = (dbl ? 1e-9L : 1e-3L) * (1 + fabsl(yh[i]) + fabsl((ld)z[i])); bool eq = l[i] == u[i]; if (!eq && (fabsl(lo) < tie || fabsl(up) < tie)) { c.label("tie"); c.discard(); } fl[i] = eq || lo < 0 ? -1 : up < 0 ? 1 : 0; if (fl[i]) act.push_back(i); }
  int k = (int)act.size(), ps = (int)y.info.status_polish; c.log("plain prim %g dual %g gap %g; status_polish %d prim %g dual %g gap %g; %d of %d guessed active", (double)x.info.prim_res, (double)x.info.dual_res, (double)x.info.duality_gap, ps, (double)y.info.prim_res, (double)y.info.dual_res, (double)y.info.duality_gap, k, m);
  CHECK(c, y.st() == OSQP_SOLVED, "polish:status", "polishing changed the status to '%s'", y.info.status); if (!k) { CHECK(c, ps == OSQP_POLISH_NO_ACTIVE_SET_FOUND, "polish:no-active-set", "no constraint is guessed active, but polishing reports %d", ps); c.nontrivial(); return; } CHECK(c, ps != OSQP_POLISH_NO_ACTIVE_SET_FOUND, "polish:active-set", "%d constraints are guessed active, but polishing reports that none is", k);
  if (k > n) { c.label("more-active-than-variables"); c.discard(); } int N = n + k; std::vector<ld> K((size_t)N * N, 0); std::vector<double> dP = denseSym(P), dA = dense(A); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) K[i * N + j] = dP[i * n + j]; for (int r = 0; r < k; r++) for (int j = 0; j < n; j++) K[j * N + n + r] = K[(n + r) * N + j] = dA[act[r] * n + j];
  VL rhs(N), w, ev(N), col; for (int j = 0; j < n; j++) rhs[j] = -(ld)q[j]; for (int r = 0; r < k; r++) rhs[n + r] = fl[act[r]] < 0 ? l[act[r]] : u[act[r]]; if (!solve_dense(K, rhs, N, w)) { c.label("singular"); c.discard(); }
  ld inv = 0; { VL rs(N, 0); for (int j = 0; j < N; j++) { std::fill(ev.begin(), ev.end(), 0); ev[j] = 1; if (!solve_dense(K, ev, N, col)) c.discard(); for (int i = 0; i < N; i++) rs[i] += fabsl(col[i]); } for (auto v : rs) inv = std::max(inv, v); } ld dk = inv * st.delta; if (!(dk < 0.1L)) { c.label("ill-conditioned"); c.discard(); }
  ld sol = ninf(w), err = 10 * powl(dk, st.polish_refine_iter + 1) * sol + (dbl ? 1e-13L : 1e-5L) * inv * (1 + sol + ninf(rhs)) + (dbl ? 1e-15L : 1e-6L) * sol / st.delta * (st.polish_refine_iter > 1 ? 1e-3L : 1);
  if (err > 1e-3L * (1 + sol)) { c.label("inaccurate"); c.discard(); }
  VL xs(n), ys(m), px(n), yy(m), xx(n); for (int j = 0; j < n; j++) { xs[j] = w[j]; xx[j] = D[j] * w[j]; } for (int r = 0; r < k; r++) ys[act[r]] = w[n + r]; VL Ax = mulA(A, xs); ld pr = 0, dr = 0; for (int i = 0; i < m; i++) { ld t = ys[i] + Ax[i], pz = std::min(std::max(t, (ld)l[i]), (ld)u[i]); ys[i] = t - pz; pr = std::max(pr, fabsl(Ax[i] - pz) / E[i]); yy[i] = ys[i] * E[i] / cs; }
  VL Px = mulP(P, xs), At = mulAt(A, ys); for (int j = 0; j < n; j++) dr = std::max(dr, fabsl(Px[j] + q[j] + At[j]) / D[j] / cs); V X(n), Y(m); for (int j = 0; j < n; j++) X[j] = (OSQPFloat)xx[j]; for (int i = 0; i < m; i++) Y[i] = (OSQPFloat)yy[i]; Resid R = residuals(p, X, Y); ld gp = fabsl(R.gap), sz = 0, sd = 0; for (int i = 0; i < m; i++) { ld t = 0; for (int j = 0; j < n; j++) t += fabs(dA[i * n + j]); sz = std::max(sz, (t + 1) / E[i]); } for (int j = 0; j < n; j++) { ld t = 0; for (int i = 0; i < n; i++) t += fabs(dP[j * n + i]); for (int i = 0; i < m; i++) t += fabs(dA[i * n + j]) * 2; sd = std::max(sd, (t + 1) / D[j] / cs); }
  ld ep = err * sz * 3, ed = err * sd * 3, xp = x.info.prim_res, xd = x.info.dual_res, xg = fabsl((ld)x.info.duality_gap), g0 = (fabsl(R.xPx) + fabsl(R.qx) + fabsl(R.sup)), lim = std::max(xg, (ld)st.eps_abs); c.log("reference prim %Lg dual %Lg gap %Lg, error %Lg", pr, dr, gp, err);
  bool yes = pr + ep < xp * 0.999L && dr + ed < xd * 0.999L && (!st.check_dualgap || gp + (err / (1 + sol) * 100 + 1e-9L) * (1 + g0) * 10 < lim), no = pr - ep > xp * 1.001L + 1e-10L || dr - ed > xd * 1.001L + 1e-10L; if (yes) { c.label("better"); c.nontrivial(); CHECK(c, ps == OSQP_POLISH_SUCCESS, "polish:reference-refused", "the solution on the active set has residuals %Lg and %Lg, gap %Lg (before %Lg, %Lg, %Lg), but polishing reports %d", pr, dr, gp, xp, xd, xg, ps); } else if (no) { c.label("worse"); c.nontrivial(); CHECK(c, ps != OSQP_POLISH_SUCCESS, "polish:reference-accepted", "the solution on the active set has residuals %Lg and %Lg (before %Lg, %Lg), but polishing reports success", pr, dr, xp, xd); }
  if (ps != OSQP_POLISH_SUCCESS) return; for (int j = 0; j < n; j++) { ld t = err * D[j] * 3 + 1e-12L * (1 + fabsl(xx[j])); CHECK(c, fabsl((ld)y.x[j] - xx[j]) <= t, "polish:reference-x", "polished x[%d] is %.12g, the solution on the active set has %.12Lg, allowed difference %Lg", j, (double)y.x[j], xx[j], t); }
  ld s1 = 0; for (int i = 0; i < m; i++) { ld t = 0; for (int j = 0; j < n; j++) t += fabs(dA[i * n + j]); s1 = std::max(s1, t); } for (int i = 0; i < m; i++) { ld t = err * (s1 + 2) * E[i] / cs * 3 + 1e-12L * (1 + fabsl(yy[i])); CHECK(c, fabsl((ld)y.y[i] - yy[i]) <= t, "polish:reference-y", "polished y[%d] is %.12g, the solution on the active set has %.12Lg, allowed difference %Lg", i, (double)y.y[i], yy[i], t); }
}
