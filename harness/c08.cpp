// C08: settings and step-size updates are equivalent to setting up with the resulting settings.
#include "hist.hpp"
static const double RMIN = 1e-6, RMAX = 1e6;
static double clampr(double r) { return std::min(std::max(r, RMIN), RMAX); }
// the documented effect of an accepted update on the stored settings
static void expect_update(OSQPSettings& e, const OSQPSettings& n) {
  e.verbose = n.verbose; e.warm_starting = n.warm_starting; e.polishing = n.polishing; e.alpha = n.alpha; e.cg_max_iter = n.cg_max_iter; e.cg_tol_reduction = n.cg_tol_reduction; e.cg_tol_fraction = n.cg_tol_fraction; e.cg_precond = n.cg_precond; e.max_iter = n.max_iter; e.eps_abs = n.eps_abs; e.eps_rel = n.eps_rel; e.eps_prim_inf = n.eps_prim_inf; e.eps_dual_inf = n.eps_dual_inf; e.scaled_termination = n.scaled_termination; e.check_termination = n.check_termination; e.check_dualgap = n.check_dualgap; e.time_limit = n.time_limit; e.delta = n.delta; e.polish_refine_iter = n.polish_refine_iter; e.profiler_level = n.profiler_level;
}
// a settings argument that differs from the stored one in everything an update may and may not touch
static OSQPSettings wild_settings(Src& s) {
  SetOpt so; so.timed = true; OSQPSettings t = gen_settings(s, so);
  if (s.chance(1, 2)) { t.rho = (OSQPFloat)(0.37 * s.range(1, 5)); t.rho_is_vec = s.range(0, 1); t.sigma = (OSQPFloat)(1e-5 * s.range(1, 5)); t.scaling = s.range(0, 12); t.adaptive_rho = s.range(0, 3); t.adaptive_rho_interval = s.range(0, 60); t.adaptive_rho_fraction = (OSQPFloat)0.77; t.adaptive_rho_tolerance = (OSQPFloat)3.25; t.allocate_solution = s.range(0, 1); }
  if (s.chance(1, 2)) { t.time_limit = (OSQPFloat)(1000.5 * s.range(1, 4)); t.delta = (OSQPFloat)(1e-6 * s.range(1, 9)); t.polish_refine_iter = s.range(0, 9); t.profiler_level = s.range(0, 1); t.cg_tol_reduction = s.range(1, 30); t.cg_tol_fraction = (OSQPFloat)(0.05 * s.range(1, 15)); t.cg_max_iter = s.range(1, 99); t.max_iter = s.range(1, 3000); t.eps_prim_inf = (OSQPFloat)(1e-5 * s.range(1, 9)); t.eps_dual_inf = (OSQPFloat)(1e-5 * s.range(1, 9)); }
  return t;
}
PROPERTY(C08, stored_settings, 2, "at least one settings or step-size update was accepted") {
  GenOpt o; o.nmax = 4; o.mmax = 5; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard();
  OSQPSettings e = st; e.rho = (OSQPFloat)clampr(e.rho); e.adaptive_rho_interval = q.s->settings->adaptive_rho_interval;   // 0 asks the solver to choose it
  if (st.adaptive_rho_interval) CHECK(c, q.s->settings->adaptive_rho_interval == st.adaptive_rho_interval, "settings:interval", "setup changed adaptive_rho_interval from %d to %d", (int)st.adaptive_rho_interval, (int)q.s->settings->adaptive_rho_interval);
  auto cmp = [&](const char* when) { std::string d = settings_diff(*q.s->settings, e, true); CHECK(c, d.empty(), std::string("settings:") + when, "%s: stored vs expected: %s", when, d.c_str()); };
  cmp("setup"); int k = tail_len(s, 1, 6);
  for (int i = 0; i < k; i++) switch (s.range(0, 5)) {
    case 0: case 1: { OSQPSettings t = wild_settings(s); t.linsys_solver = s.chance(1, 2) ? st.linsys_solver : OSQP_DIRECT_SOLVER; c.log("op update_settings"); log_settings(c, t); int f = (int)osqp_update_settings(q.s, &t); CHECK(c, f == 0, "settings:refused", "a valid settings update was refused with %d", f); expect_update(e, t); cmp("update"); c.nontrivial(); break; }
    case 2: { static const double r[] = {0.1, 1, 1e-3, 40, 1e-9, 1e-6, 1e6, 1e12}; double v = r[s.draw(8)]; c.log("op update_rho %g", v); int f = (int)osqp_update_rho(q.s, (OSQPFloat)v); CHECK(c, f == 0, "settings:rho-refused", "update_rho(%g) was refused with %d", v, f); e.rho = (OSQPFloat)clampr(v); cmp("update_rho"); c.nontrivial(); break; }
    case 3: { c.log("op solve"); q.run(); if (e.adaptive_rho) { double r = q.s->settings->rho; CHECK(c, r >= RMIN * 0.999999 && r <= RMAX * 1.000001, "settings:rho-range", "step size %g outside the documented range", r); e.rho = (OSQPFloat)r; e.adaptive_rho_interval = q.s->settings->adaptive_rho_interval; } cmp("solve"); break; }
    case 4: { Op w = gen_warm(s, p); log_op(c, w); if (apply_op(q, w) == 0) e.warm_starting = 1; cmp("warm_start"); break; }
    default: { Op v = s.chance(1, 2) ? gen_vec(s, p, true) : gen_mat(s, p, true); log_op(c, v); if (apply_op(q, v) == 0) model_op(p, v); cmp("data update"); }
  }
}
// after any settings/step-size updates (and solves) a cold solve is the one a fresh solver with these settings performs
PROPERTY(C08, same_run, 3, "updates happened and the two solvers ran at least two iterations") {
  GenOpt o; if (s.chance(1, 8)) { o.nmax = 20; o.mmax = 24; } Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); if (st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME && !st.adaptive_rho_interval) st.adaptive_rho_interval = 20;
  log_prob(c, p); log_settings(c, st); Osqp a, b; if (a.setup(p, st)) c.discard(); int k = tail_len(s, 1, 5); bool upd = false;
  for (int i = 0; i < k; i++) switch (s.range(0, 4)) {
    case 0: case 1: { OSQPSettings t = s.chance(1, 2) ? wild_settings(s) : gen_settings(s, so); t.linsys_solver = st.linsys_solver; t.profiler_level = 0; if (t.time_limit < 1e9) t.time_limit = (OSQPFloat)1e9; c.log("op update_settings"); log_settings(c, t); if (osqp_update_settings(a.s, &t)) c.fail("settings:refused", "a valid settings update was refused"); upd = true; break; }
    case 2: { static const double r[] = {0.1, 1, 1e-3, 40, 1e-9, 1e-6, 1e6, 1e12}; double v = r[s.draw(8)]; c.log("op update_rho %g", v); osqp_update_rho(a.s, (OSQPFloat)v); upd = true; break; }
    case 3: { c.log("op solve"); Result r = a.run(); c.log("   %s iter %d rho %g", st_name(r.st()), (int)r.info.iter, (double)a.s->settings->rho); break; }
    default: { Op w = gen_warm(s, p); log_op(c, w); apply_op(a, w); }
  }
  OSQPSettings now = *a.s->settings; if (b.setup(p, now)) c.fail("settings:stored-invalid", "setting up with the solver's stored settings was refused with %d", b.setup_flag);
  c.log("final"); log_settings(c, now); osqp_cold_start(a.s); OSQPInt r0 = a.s->info->rho_updates; Result x = a.run(), y = b.run(); x.info.rho_updates -= r0; c.log("updated: %s iter %d; fresh: %s iter %d", st_name(x.st()), (int)x.info.iter, st_name(y.st()), (int)y.info.iter);
  c.label(std::string("status:") + st_name(x.st())); std::string d = diff_results(x, y, 0, 0);
  if (d.empty()) d = settings_diff(*a.s->settings, *b.s->settings, true);
  CHECK(c, d.empty(), "settings:run-differs", "updated solver vs fresh solver with the same settings: %s", d.c_str());
  if (upd && x.info.iter > 1) c.nontrivial();
}
