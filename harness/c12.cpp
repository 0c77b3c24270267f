// C12: warm starting changes the starting point only.
#include "opt.hpp"
static void detour(Src& s, Ctx& c, Osqp& q, Prob& p, const OSQPSettings& st, bool data) {   // some history that ends with the problem p again
  int k = tail_len(s, 0, 3); Prob cur = p; OpOpt oo; oo.moderate = true; oo.wMat = data ? 2 : 0; oo.wVec = data ? 2 : 0; oo.wRho = 0; oo.wSet = 0; (void)st; bool v = false, m = false;
  for (int i = 0; i < k; i++) { Op op = gen_op(s, cur, st, oo); log_op(c, op); if (apply_op(q, op) == 0) { model_op(cur, op); v |= op.k == O_VEC; m |= op.k == O_MAT; } }
  if (m) osqp_update_data_mat(q.s, p.P.nnz() ? p.P.x.data() : nullptr, nullptr, 0, p.A.nnz() ? p.A.x.data() : nullptr, nullptr, 0);
  if (v) osqp_update_data_vec(q.s, p.q.data(), p.m ? p.l.data() : nullptr, p.m ? p.u.data() : nullptr);
}
PROPERTY(C12, optimal_start, 3, "the solver was warm started at a nonzero optimal pair") {
  GenOpt o; o.well = s.chance(1, 2); o.scaleRows = s.chance(1, 3); Prob p = s.chance(1, 5) ? gen_lp(s, o) : gen_kkt(s, o); SetOpt so; so.limits = false; so.wild = false; OSQPSettings st = gen_settings(s, so); if (st.eps_abs < 1e-6) st.eps_abs = (OSQPFloat)1e-6; if (!st.check_termination) st.check_termination = 25; st.max_iter = 4000; if (st.adaptive_rho && (st.adaptive_rho_interval < st.check_termination || st.adaptive_rho == 2)) st.adaptive_rho = 0; /* noise-driven adaptation before the first check */ if (st.linsys_solver == OSQP_INDIRECT_SOLVER && st.eps_abs < 1e-3) st.eps_abs = (OSQPFloat)1e-3;
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); detour(s, c, q, p, st, true);
  V x = toF(p.xs), y = toF(p.ys); int how = s.range(0, 2); if (how == 0) osqp_warm_start(q.s, x.data(), y.data()); else if (how == 1) { osqp_warm_start(q.s, x.data(), nullptr); osqp_warm_start(q.s, nullptr, y.data()); } else { osqp_warm_start(q.s, nullptr, y.data()); osqp_warm_start(q.s, x.data(), nullptr); }
  Result r = q.run(); c.log("%s iter %d prim %g dual %g gap %g", st_name(r.st()), (int)r.info.iter, (double)r.info.prim_res, (double)r.info.dual_res, (double)r.info.duality_gap);
  // rounding in the data construction leaves the pair optimal only up to the size of the numbers involved
  Resid R = residuals(p, x, y); double big = (double)std::max(std::max(R.aAx, R.aAty), R.aPx); for (auto v : x) big = std::max(big, fabs((double)v)); for (auto v : y) big = std::max(big, fabs((double)v)); if (big > 1e6 || R.pdist > 1e-3 * st.eps_abs || R.dres > 1e-3 * st.eps_abs || fabsl(R.gap) > 1e-3 * st.eps_abs) { c.label("inexact-optimum"); return; }
  CHECK(c, r.st() == OSQP_SOLVED, "warm:status", "warm started at an optimal pair, ended '%s' after %d iterations", r.info.status, (int)r.info.iter);
  CHECK(c, r.info.iter == st.check_termination, "warm:iter", "warm started at an optimal pair, took %d iterations with a check every %d", (int)r.info.iter, (int)st.check_termination);
  if (r.info.status_polish != 1) { double tol = st.linsys_solver == OSQP_INDIRECT_SOLVER ? 1e-3 : 1e-6; int at = 0; CHECK(c, !p.uniqX || vclose(r.x, x, tol, tol * (1 + big), &at), "warm:x", "x[%d] = %.12g left the optimum %.12g", at, (double)r.x[at], (double)x[at]); CHECK(c, vclose(r.y, y, tol * 100, tol * 100 * (1 + big), &at) || st.linsys_solver == OSQP_INDIRECT_SOLVER, "warm:y", "y[%d] = %.12g left the optimum %.12g", at, (double)r.y[at], (double)y[at]); }
  bool nz = false; for (auto v : y) nz |= v != 0; if (nz) c.nontrivial();
}
// stopping and resuming is the same as running through
PROPERTY(C12, resume, 2, "both parts ran at least one iteration and the first did not end in an infeasible status") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; so.linsys = false; so.polish = false; OSQPSettings st = gen_settings(s, so); st.adaptive_rho = 0; st.check_termination = 0; st.warm_starting = 1; st.polishing = 0; int k1 = s.range(1, 40), k2 = s.range(1, 40); st.max_iter = k1; log_prob(c, p); log_settings(c, st); c.log("%d then %d iterations", k1, k2); Osqp a, b; if (a.setup(p, st)) c.discard(); OSQPSettings s2 = st; s2.max_iter = k1 + k2; b.setup(p, s2);
  bool w = s.chance(1, 2); if (w) { Op op = gen_warm(s, p); log_op(c, op); apply_op(a, op); apply_op(b, op); }
  Result r = a.run(); c.log("part 1: %s", st_name(r.st())); if (!st_hassol(r.st())) return;   // storing a certificate restarts the iteration
  if (s.chance(1, 3)) { OSQPSettings t = *a.s->settings; t.max_iter = k2; osqp_update_settings(a.s, &t); } else { s2 = *a.s->settings; s2.max_iter = k2; osqp_update_settings(a.s, &s2); }
  if (s.chance(1, 3)) osqp_warm_start(a.s, nullptr, nullptr);     // giving neither vector keeps the current point
  Result x = a.run(), y = b.run(); c.log("part 2: %s; whole: %s", st_name(x.st()), st_name(y.st())); x.info.iter += k1; std::string d = diff_results(x, y, 0, 0); CHECK(c, d.empty(), "warm:resume", "stopping after %d of %d iterations and resuming differs: %s", k1, k1 + k2, d.c_str()); c.nontrivial();
}
// a given start determines the run: zeros are a cold start, and earlier history does not matter
PROPERTY(C12, start_only, 2, "the solver had a history before the start was given") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); st.adaptive_rho = 0; log_prob(c, p); log_settings(c, st); Osqp a, b; if (a.setup(p, st)) c.discard(); b.setup(p, st); detour(s, c, a, p, st, false); if (s.chance(1, 2)) a.run();
  // also one half of the start at a time, in any order, the last value counts
  Op w = gen_warm(s, p); int how = s.range(0, 3); if (how == 0) { V zx(p.n, 0), zy(p.m, 0); osqp_warm_start(a.s, zx.data(), zy.data()); osqp_cold_start(b.s); OSQPSettings t = *b.s->settings; t.warm_starting = 1; osqp_update_settings(b.s, &t); c.log("zero start against cold start"); }
  else { V x = w.hx ? w.x : V(p.n, (OSQPFloat)0.25), y = w.hy ? w.y : V(p.m, (OSQPFloat)-0.5); Op f; f.k = O_WARM; f.hx = f.hy = true; f.x = x; f.y = y; log_op(c, f); if (how == 1) { osqp_warm_start(a.s, x.data(), y.data()); } else if (how == 2) { V o2(p.n, 3); osqp_warm_start(a.s, o2.data(), y.data()); osqp_warm_start(a.s, x.data(), nullptr); } else { osqp_warm_start(a.s, x.data(), nullptr); osqp_warm_start(a.s, nullptr, y.data()); } osqp_warm_start(b.s, x.data(), y.data()); }
  if (!st.warm_starting && how) c.label("switched-on");
  Result x = a.run(), y = b.run(); c.label(std::string("status:") + st_name(x.st())); std::string d = diff_results(x, y, 0, 0); CHECK(c, d.empty(), "warm:start-only", "the same start gives different runs: %s", d.c_str()); c.nontrivial();
}
// any start leads to the optimum
PROPERTY(C12, same_solution, 2, "solved from a start that is not the optimum, tolerances tight enough to tell solutions apart") {
  GenOpt o; o.well = true; o.scaleRows = false; o.pd = true; Prob p = gen_kkt(s, o); SetOpt so; so.limits = false; so.wild = false; so.scaledTerm = false; so.tol = false; OSQPSettings st = gen_settings(s, so); if (!st.check_termination) st.check_termination = 25; bool ind = st.linsys_solver == OSQP_INDIRECT_SOLVER; st.eps_abs = st.eps_rel = (OSQPFloat)(ind ? 1e-5 : 1e-6); st.max_iter = ind ? 50000 : 400000; st.eps_prim_inf = st.eps_dual_inf = (OSQPFloat)1e-9; if (st.sigma > 1e-3) st.sigma = (OSQPFloat)1e-4; if (st.adaptive_rho > 1 || st.adaptive_rho_interval < 25) st.adaptive_rho = 0; if (!st.adaptive_rho) st.rho = (OSQPFloat)0.1; if (st.cg_max_iter < 20) st.cg_max_iter = 20; if (st.cg_tol_reduction < 5) st.cg_tol_reduction = 5;
  Op w = gen_warm(s, p); if (w.hx) for (auto& v : w.x) v = std::min((OSQPFloat)1e3, std::max((OSQPFloat)-1e3, v)); if (w.hy) for (auto& v : w.y) v = std::min((OSQPFloat)1e3, std::max((OSQPFloat)-1e3, v)); log_prob(c, p); log_settings(c, st); log_op(c, w); Osqp q; if (q.setup(p, st)) c.discard(); detour(s, c, q, p, st, true); apply_op(q, w); Result r = q.run(); c.log("%s iter %d", st_name(r.st()), (int)r.info.iter); c.label(std::string("status:") + st_name(r.st()));
  if (st_pinf(r.st())) { check_pinf(c, p, q, r); c.label("no-slack"); return; }
  if (ind && !st_solved(r.st())) { c.label("slow"); return; }
  if (!st_solved(r.st())) { Osqp f; f.setup(p, st); Result z = f.run(); c.log("cold: %s iter %d", st_name(z.st()), (int)z.info.iter); if (z.st() != OSQP_SOLVED || z.info.iter > 1000) { c.label("slow"); return; } }
  CHECK(c, st_solved(r.st()), "warm:not-solved", "a well-conditioned problem ended '%s' from a warm start", r.info.status);
  check_solved(c, p, q, r); check_opt(c, p, q, r); c.nontrivial();
}
// giving either half of a start turns warm starting on and leaves the other half alone
PROPERTY(C12, half_start, 2, "warm starting was off and only one half of the start was given") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); st.adaptive_rho = 0; st.warm_starting = s.chance(3, 4) ? 0 : 1; OSQPSettings t = st; t.warm_starting = 1; log_prob(c, p); log_settings(c, st); Osqp a, b; if (a.setup(p, st)) c.discard(); b.setup(p, t); bool r = s.chance(1, 2); if (r) { Result ra = a.run(), rb = b.run(); std::string d = diff_results(ra, rb, 0, 0); CHECK(c, d.empty(), "warm:first-solve", "the first solve depends on warm_starting: %s", d.c_str()); if (!st.warm_starting) osqp_cold_start(b.s); }
  int k = s.range(1, 2); for (int i = 0; i < k; i++) { Op w = gen_warm(s, p); log_op(c, w); int fa = apply_op(a, w), fb; if (r && !st.warm_starting && i == 0) { // with warm starting off the point kept from the last solve is still there for the half not given
      if (!w.hx || !w.hy) { Osqp z; z.setup(p, t); z.run(); fb = apply_op(z, w); std::swap(b.s, z.s); } else fb = apply_op(b, w); } else fb = apply_op(b, w); CHECK(c, fa == fb, "warm:code", "warm start returned %d, and %d with warm starting on", fa, fb); if (!w.hx || !w.hy) { if (!st.warm_starting) c.nontrivial(); } }
  CHECK(c, a.s->settings->warm_starting == 1, "warm:switch", "warm_starting is %d after osqp_warm_start", (int)a.s->settings->warm_starting);
  Result x = a.run(), y = b.run(); std::string d = diff_results(x, y, 0, 0); CHECK(c, d.empty(), "warm:half-start", "the same start with warm starting switched on before or by the call gives different runs: %s", d.c_str());
}
