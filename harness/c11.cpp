// C11: every solve reports only itself; cold solves are repeatable.
#include "hist.hpp"
PROPERTY(C11, own_report, 3, "at least two solves of a history ended with different statuses") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; so.timed = true; OSQPSettings st = gen_settings(s, so); if (s.chance(1, 8)) st.allocate_solution = 0; log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); OpOpt oo; oo.so = so; oo.wSolve = 6; oo.wSet = 3; int k = s.range(3, 10); std::vector<int> seen; bool mat = false, upd = false, first = true;
  for (int i = 0; i < k; i++) {
    Op op = gen_op(s, p, st, oo);
    if (op.k == O_SET && s.chance(1, 2)) op.st.max_iter = s.range(1, 3);
    log_op(c, op);
    if (op.k != O_SOLVE) { if (op.k == O_VEC || op.k == O_MAT || op.k == O_RHO) upd = true; int f = apply_op(q, op); mat |= op.k == O_MAT; if (f == 0) model_op(p, op); else if (!(op.k == O_VEC && mat && tight_bound(p, op))) c.discard(); continue; }
    if (s.chance(1, 6)) { vclk_on_call(s.range(1, 30), [] { vclk_advance(1e12); }); }   // the clock jumps: time limit in mid-solve
    Result r = q.run(); vclk_on_call(0, nullptr); int v = r.st(); c.log("   -> %s iter %d polish %d", st_name(v), (int)r.info.iter, (int)r.info.status_polish); c.label(std::string("status:") + st_name(v));
    const OSQPSettings& z = *q.s->settings;
    CHECK(c, v >= OSQP_SOLVED && v < OSQP_UNSOLVED, "report:status", "status value %d after a solve", v);
    CHECK(c, !strcmp(r.info.status, st_name(v)), "report:text", "status text '%s' for status value %d", r.info.status, v);
    CHECK(c, r.info.iter >= 1 && r.info.iter <= z.max_iter, "report:iter", "%d iterations reported, limit %d", (int)r.info.iter, (int)z.max_iter);
    if (v == OSQP_MAX_ITER_REACHED) CHECK(c, r.info.iter == z.max_iter, "report:iter", "'%s' after %d iterations, limit %d", r.info.status, (int)r.info.iter, (int)z.max_iter);
    if (!z.polishing || !st_solved(v)) CHECK(c, r.info.status_polish == OSQP_POLISH_NOT_PERFORMED, "report:polish", "status_polish %d although no polishing took place (%s, polishing=%d)", (int)r.info.status_polish, st_name(v), (int)z.polishing);
    if (v == OSQP_SOLVED && z.polishing) CHECK(c, r.info.status_polish != OSQP_POLISH_NOT_PERFORMED, "report:polish", "status_polish says not performed after a solved run with polishing on");
    CHECK(c, r.info.solve_time >= 0 && r.info.run_time >= 0 && r.info.update_time >= 0 && r.info.polish_time >= 0, "report:time", "negative time reported");
    if (!upd) CHECK(c, r.info.update_time == 0, "report:update-time", "update time %g reported without an update since the last solve", (double)r.info.update_time);
    { double want = (first ? (double)r.info.setup_time : (double)r.info.update_time) + (double)r.info.solve_time + (double)r.info.polish_time; CHECK(c, fabs((double)r.info.run_time - want) <= 1e-6 * want, "report:run-time", "run time %g, but %s %g + solve %g + polish %g", (double)r.info.run_time, first ? "setup" : "update", first ? (double)r.info.setup_time : (double)r.info.update_time, (double)r.info.solve_time, (double)r.info.polish_time); } first = upd = false;
    if (st_solved(v)) check_solved(c, p, q, r); else if (st_pinf(v)) check_pinf(c, p, q, r); else if (st_dinf(v)) check_dinf(c, p, q, r);
    if (st_hassol(v)) { check_info(c, p, q, r); CHECK(c, is_na(r.pc) && is_na(r.dc), "report:certs", "a certificate is reported with status '%s'", r.info.status); }
    if (v == OSQP_NON_CVX) CHECK(c, is_na(r.x) && is_na(r.y) && is_na(r.pc) && is_na(r.dc), "report:nonconvex", "a solution or a certificate is reported with status '%s'", r.info.status);
    if (st_pinf(v) || st_dinf(v)) CHECK(c, is_na(r.x) && is_na(r.y) && (st_pinf(v) ? is_na(r.dc) : is_na(r.pc)), "report:solution", "a solution or a second certificate is reported with status '%s'", r.info.status);
    if (std::find(seen.begin(), seen.end(), v) == seen.end()) seen.push_back(v);
  }
  if (seen.size() > 1) c.nontrivial();
}
// whatever happens in between, the same data, settings and step size give the same cold solve
PROPERTY(C11, cold_repeat, 3, "something happened between two cold solves that ran more than one iteration") {
  GenOpt o; if (s.chance(1, 8)) { o.nmax = 20; o.mmax = 24; } Prob p = gen_any(s, o), cur; cur = p; SetOpt so; OSQPSettings st = gen_settings(s, so); if (st.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_TIME && !st.adaptive_rho_interval) st.adaptive_rho_interval = 20; if (s.chance(1, 8)) st.allocate_solution = 0; log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard();
  if (s.chance(1, 3)) { Op w = gen_warm(s, p); apply_op(q, w); } if (s.chance(1, 3)) { q.run(); }
  // vectors written through an update are scaled in one step, those of setup gradually: start from the former in either case
  osqp_update_data_vec(q.s, p.q.data(), p.m ? p.l.data() : nullptr, p.m ? p.u.data() : nullptr);
  OSQPSettings base = *q.s->settings; bool off = s.chance(1, 2); if (off) { base.warm_starting = 0; osqp_update_settings(q.s, &base); } else osqp_cold_start(q.s);
  double rho = base.rho; OSQPInt r0 = q.s->info->rho_updates; Result a = q.run(); a.info.rho_updates -= r0; c.log("first: %s iter %d", st_name(a.st()), (int)a.info.iter);
  int k = tail_len(s, 0, 4); OpOpt oo; oo.so = so; if (st.scaling) oo.wMat = 0; bool data = false;
  for (int i = 0; i < k; i++) { Op op = gen_op(s, cur, st, oo); if (op.k == O_SET) { op.st.adaptive_rho = st.adaptive_rho; } log_op(c, op); if (op.k == O_SOLVE && s.chance(1, 4)) vclk_on_call(s.range(1, 20), [] { vclk_advance(1e12); }); int f = apply_op(q, op); vclk_on_call(0, nullptr); if (f == 0 && (op.k == O_VEC || op.k == O_MAT)) { model_op(cur, op); data = true; } }
  // back to the same data, settings, step size
  if (data) { int f = (int)osqp_update_data_vec(q.s, p.q.data(), p.m ? p.l.data() : nullptr, p.m ? p.u.data() : nullptr); CHECK(c, f == 0, "repeat:restore", "restoring the vectors returned %d", f); if (oo.wMat) { f = (int)osqp_update_data_mat(q.s, p.P.nnz() ? p.P.x.data() : nullptr, nullptr, 0, p.A.nnz() ? p.A.x.data() : nullptr, nullptr, 0); CHECK(c, f == 0, "repeat:restore", "restoring the matrices returned %d", f); } }
  osqp_update_settings(q.s, &base); osqp_update_rho(q.s, (OSQPFloat)rho); if (!base.warm_starting && s.chance(1, 2)) { /* warm starting off suffices */ } else osqp_cold_start(q.s);
  r0 = q.s->info->rho_updates; Result b = q.run(); b.info.rho_updates -= r0; c.log("again: %s iter %d", st_name(b.st()), (int)b.info.iter); c.label(std::string("status:") + st_name(b.st()));
  std::string d = diff_results(a, b, 0, 0); CHECK(c, d.empty(), "repeat:differs", "a repeated cold solve differs: %s", d.c_str());
  { double i1 = (double)a.info.primdual_int, i2 = (double)b.info.primdual_int; CHECK(c, i1 == i2 || !(fabs(i1 - i2) > 1e-9 * (fabs(i1) + fabs(i2))), "repeat:gap-integral", "the repeated cold solve reports the gap integral %.17g, the first %.17g", i2, i1); }
  if (k && a.info.iter > 1) c.nontrivial();
}
// the times reported are those of the phases they name: every call gets its own jump of the (virtual) clock
static double g_jump = 0;
static void leap() { vclk_advance(g_jump); }
PROPERTY(C11, times, 1, "a solve was preceded by updates, or followed another solve") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); log_prob(c, p); log_settings(c, st);
  const double step = 1e-6; vclk_virtual(1000, step); auto arm = [&] { g_jump = 0.125 * s.range(1, 64); vclk_on_call(2, leap); };
  auto fits = [&](const char* what, double got, double jumps, double spent) { CHECK(c, got >= jumps - 0.01 && got <= spent + 1e-6 * (1 + spent), "report:times", "%s reported as %.9g s: the clock moved %.9g s in the calls concerned, %.9g of it between their first and last reading", what, got, spent, jumps); };
  Osqp q; double t0 = vclk_now(); arm(); int f = q.setup(p, st); bool hit = vclk_calls() >= 2; vclk_on_call(0, nullptr); if (f) c.discard();
  if (hit) fits("setup time", (double)q.s->info->setup_time, g_jump, vclk_now() - t0);
  OpOpt oo; oo.so = so; oo.wSolve = 4; oo.moderate = true; int k = tail_len(s, 2, 8), solves = 0, pend = 0; double uj = 0, us = 0;
  for (int i = 0; i < k; i++) {
    Op op = gen_op(s, p, st, oo); log_op(c, op); t0 = vclk_now(); arm(); int e = apply_op(q, op); hit = vclk_calls() >= 2; vclk_on_call(0, nullptr); double spent = vclk_now() - t0;
    if (e) c.discard(); model_op(p, op);
    if (op.k == O_VEC || op.k == O_MAT || op.k == O_RHO) { if (hit) uj += g_jump; us += spent; pend++; }
    if (op.k != O_SOLVE) continue;
    const OSQPInfo& I = *q.s->info; c.log("   -> %s iter %d polish %d: update %.9g solve %.9g polish %.9g run %.9g", I.status, (int)I.iter, (int)I.status_polish, (double)I.update_time, (double)I.solve_time, (double)I.polish_time, (double)I.run_time);
    if (hit) fits("solve time", (double)I.solve_time, g_jump, spent);
    fits("update time", (double)I.update_time, uj, us);
    if (I.status_polish == OSQP_POLISH_SUCCESS) CHECK(c, I.polish_time > 0, "report:times", "polishing took place, its time is reported as %g", (double)I.polish_time);
    if (I.status_polish == OSQP_POLISH_NOT_PERFORMED) CHECK(c, I.polish_time == 0, "report:times", "polishing did not take place, its time is reported as %g", (double)I.polish_time);
    if (solves || pend) c.nontrivial(); solves++; pend = 0; uj = us = 0; c.label(I.status);
  }
}
