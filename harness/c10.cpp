// C10: setup and updates accept exactly the valid inputs.
#include "reject.hpp"
static OSQPSettings edge_settings(Src& s) {   // valid, biased to the edges of the ranges
  SetOpt so; so.timed = true; OSQPSettings t = gen_settings(s, so); int k = s.range(0, 4);
  for (int i = 0; i < k; i++) switch (s.range(0, 17)) {
    case 0: t.eps_abs = 0; if (t.eps_rel == 0) t.eps_rel = (OSQPFloat)1e-30; break;
    case 1: t.eps_rel = 0; if (t.eps_abs == 0) t.eps_abs = (OSQPFloat)1e-30; break;
    case 2: t.max_iter = 1; break;
    case 3: t.scaling = s.chance(1, 2) ? 0 : 1; break;
    case 4: t.rho = (OSQPFloat)(s.chance(1, 2) ? 1e-30 : 1e30); break;
    case 5: t.alpha = (OSQPFloat)(s.chance(1, 2) ? 1e-3 : 1.999); break;
    case 6: t.cg_max_iter = 1; t.cg_tol_reduction = 1; break;
    case 7: t.cg_tol_fraction = (OSQPFloat)(s.chance(1, 2) ? 1e-6 : 0.999); break;
    case 8: t.adaptive_rho = s.range(0, 3); t.adaptive_rho_interval = s.range(0, 1); break;
    case 9: t.adaptive_rho_tolerance = 1; t.adaptive_rho_fraction = (OSQPFloat)(s.chance(1, 2) ? 1e-6 : 50); break;
    case 10: t.check_termination = s.chance(1, 2) ? 0 : 1000000; break;
    case 11: t.time_limit = (OSQPFloat)(s.chance(1, 2) ? 1e-9 : 1e20); break;
    case 12: t.delta = (OSQPFloat)(s.chance(1, 2) ? 1e-12 : 1); t.polish_refine_iter = 0; break;
    case 13: t.allocate_solution = s.range(0, 1); break;
    case 14: t.eps_prim_inf = (OSQPFloat)1e-25; t.eps_dual_inf = (OSQPFloat)1e-25; break;
    case 15: t.profiler_level = s.range(0, 2); break;
    case 16: t.cg_precond = s.chance(1, 2) ? OSQP_NO_PRECONDITIONER : OSQP_DIAGONAL_PRECONDITIONER; break;
    default: t.eps_abs = (OSQPFloat)1e20; t.eps_rel = (OSQPFloat)1e20; break;
  }
  return t;
}
static Prob edge_problem(Src& s) {
  GenOpt o; if (s.chance(1, 3)) { o.nmax = 2; o.mmax = 3; } Prob p = gen_any(s, o);
  switch (s.range(0, 7)) {
    case 0: p.P = csc_from_dense(p.n, p.n, std::vector<double>((size_t)p.n * p.n, 0), std::vector<char>((size_t)p.n * p.n, 0), true); break;                      // no entries in P
    case 1: p.A = csc_from_dense(p.m, p.n, std::vector<double>((size_t)p.m * p.n, 0), std::vector<char>((size_t)p.m * p.n, 0), false); break;                    // no entries in A
    case 2: { std::vector<char> pat((size_t)p.n * p.n, 1); p.P = csc_from_dense(p.n, p.n, std::vector<double>((size_t)p.n * p.n, 0), pat, true); break; }        // explicit zeros
    case 3: for (int i = 0; i < p.m; i++) if (s.chance(1, 2)) { p.l[i] = (OSQPFloat)-ginf(s); p.u[i] = (OSQPFloat)ginf(s); } break;
    case 4: for (int i = 0; i < p.m; i++) if (s.chance(1, 2)) { if (!is_inf_bound(p.l[i])) p.u[i] = p.l[i]; else if (!is_inf_bound(p.u[i])) p.l[i] = p.u[i]; } break;
    default: break;
  }
  return p;
}
// numerically hopeless KKT systems: a factorization may break down although the data are valid
static bool hopeless(const Prob& p, const OSQPSettings& st) {
  double a = 0, pm = 0; for (auto v : p.A.x) a = std::max(a, fabs((double)v)); for (auto v : p.P.x) pm = std::max(pm, fabs((double)v)); if (st.scaling) { a = std::max(1.0, std::min(a, 10.0)); pm = std::min(pm, 10.0); }
  double rho = std::min(std::max((double)st.rho, 1e-6), 1e6) * (st.rho_is_vec ? 1e3 : 1); return (pm + rho * a * a * (p.m + 1)) / st.sigma > 1e14;
}
PROPERTY(C10, valid_setup, 2, "a problem or setting at an edge of its range was used") {
  Prob p = edge_problem(s); OSQPSettings st = edge_settings(s); log_prob(c, p); log_settings(c, st); OSQPSolver* q = nullptr; OSQPCscMatrix P = p.P.view(), A = p.A.view(); bool nul = p.m == 0 && s.chance(1, 2); if (s.chance(1, 4)) { P.nz = A.nz = -1; }
  int f = (int)osqp_setup(&q, &P, p.q.data(), &A, nul ? nullptr : p.l.data(), nul ? nullptr : p.u.data(), p.m, p.n, &st);
  struct G { OSQPSolver*& q; ~G() { if (q) osqp_cleanup(q); } } g{q};
  if (f == OSQP_NONCVX_ERROR && hopeless(p, st)) { c.label("ill-conditioned"); return; }
  CHECK(c, f == 0 && q, "valid:setup-refused", "setup of a valid problem returned %d (solver %s)", f, q ? "returned" : "missing");
  CHECK(c, q->work && q->info && q->settings && (q->solution != nullptr) == (st.allocate_solution != 0), "valid:setup-parts", "the returned solver is incomplete");
  CHECK(c, q->info->status_val == OSQP_UNSOLVED, "valid:setup-status", "status %d after setup", (int)q->info->status_val);
  std::string d = settings_diff(*q->settings, st, false); if (!st.adaptive_rho_interval) { OSQPSettings e = st; e.adaptive_rho_interval = q->settings->adaptive_rho_interval; d = settings_diff(*q->settings, e, false); } CHECK(c, d.empty(), "valid:setup-settings", "stored settings differ: %s", d.c_str());
  c.nontrivial();
}
PROPERTY(C10, invalid_setup, 3, "exactly one requirement was violated") {
  Prob p = edge_problem(s); OSQPSettings st = edge_settings(s); OSQPCscMatrix P = p.P.view(), A = p.A.view(); const OSQPFloat *q = p.q.data(), *l = p.l.data(), *u = p.u.data(); const OSQPSettings* sp = &st; OSQPCscMatrix *pp = &P, *ap = &A; OSQPInt m = p.m, n = p.n; int want = OSQP_DATA_VALIDATION_ERROR; std::string what; Csc keep;
  V bl = p.l, bu = p.u;
  switch (s.range(0, 11)) {
    case 0: pp = nullptr; what = "P missing"; break;
    case 1: ap = nullptr; what = "A missing"; break;
    case 2: q = nullptr; what = "q missing"; break;
    case 3: if (!m) c.discard(); if (s.chance(1, 2)) { l = nullptr; what = "l missing"; } else { u = nullptr; what = "u missing"; } break;
    case 4: n = s.chance(1, 2) ? 0 : -1; what = "n not positive"; break;
    case 5: m = -1; what = "m negative"; break;
    case 6: if (s.chance(1, 2)) { P.m += s.chance(1, 2) ? 1 : -1; what = "P row count"; } else { P.n += s.chance(1, 2) ? 1 : -1; what = "P column count"; } break;
    case 7: if (s.chance(1, 2)) { A.m += s.chance(1, 2) || !m ? 1 : -1; what = "A row count"; } else { A.n += s.chance(1, 2) ? 1 : -1; what = "A column count"; } break;
    case 8: { if (n < 2) c.discard(); // one entry below the diagonal
      int j = (int)s.draw(n - 1), i = j + 1 + (int)s.draw(n - 1 - j); keep = p.P; keep.i.insert(keep.i.begin() + keep.p[j + 1], i); keep.x.insert(keep.x.begin() + keep.p[j + 1], (OSQPFloat)(s.chance(1, 3) ? 0 : 0.5)); for (int k = j + 1; k <= n; k++) keep.p[k]++; P = keep.view(); what = "P entry below the diagonal"; break; }
    case 9: { if (!m) c.discard(); int i = (int)s.draw(m); double b = is_inf_bound(bl[i]) ? (is_inf_bound(bu[i]) ? 0 : bu[i]) : bl[i]; switch (s.range(0, 3)) { case 0: bl[i] = (OSQPFloat)(b + 1); bu[i] = (OSQPFloat)b; break; case 1: bl[i] = std::nextafter((OSQPFloat)(b + 1), (OSQPFloat)1e20); bu[i] = (OSQPFloat)(b + 1); break; case 2: bl[i] = (OSQPFloat)b; bu[i] = (OSQPFloat)-OSQP_INFTY; break; default: bl[i] = (OSQPFloat)OSQP_INFTY; bu[i] = (OSQPFloat)b; } l = bl.data(); u = bu.data(); what = "crossing bounds in row " + std::to_string(i); break; }
    case 10: sp = nullptr; want = OSQP_SETTINGS_VALIDATION_ERROR; what = "settings missing"; break;
    default: break_setting(s, st, true, what); want = OSQP_SETTINGS_VALIDATION_ERROR; what = "setting " + what; break;
  }
  log_prob(c, p); log_settings(c, st); c.log("violated: %s", what.c_str()); c.label("violated:" + what.substr(0, 28));
  long live0 = vmem_live(); OSQPSolver* q0 = nullptr; int f = (int)osqp_setup(&q0, pp, q, ap, l, u, m, n, sp);
  if (q0) { osqp_cleanup(q0); }
  CHECK(c, f == want, "invalid:code", "setup with %s returned %d instead of %d", what.c_str(), f, want);
  CHECK(c, !q0, "invalid:solver", "setup with %s failed but produced a solver", what.c_str());
  CHECK(c, vmem_live() == live0, "invalid:leak", "setup with %s kept %ld allocations", what.c_str(), vmem_live() - live0);
  c.nontrivial();
}
// invalid values of several settings at once, and random ones: the expected answer comes from an independent table
static bool settings_valid(const OSQPSettings& t, bool setup) {
  auto b01 = [](OSQPInt v) { return v == 0 || v == 1; }; auto pos = [](double v) { return v > 0; };
  if (!b01(t.verbose) || !b01(t.warm_starting) || !b01(t.polishing) || !b01(t.scaled_termination) || !b01(t.check_dualgap)) return false;
  if (t.profiler_level < 0 || t.profiler_level > 2) return false;
  if (!(t.alpha > 0 && t.alpha < 2) || t.cg_max_iter < 1 || t.cg_tol_reduction < 1 || !(t.cg_tol_fraction > 0 && t.cg_tol_fraction < 1)) return false;
  if (t.cg_precond != OSQP_NO_PRECONDITIONER && t.cg_precond != OSQP_DIAGONAL_PRECONDITIONER) return false;
  if (t.max_iter < 1 || !(t.eps_abs >= 0) || !(t.eps_rel >= 0) || (t.eps_abs == 0 && t.eps_rel == 0) || !pos(t.eps_prim_inf) || !pos(t.eps_dual_inf) || t.check_termination < 0 || !pos(t.time_limit) || !pos(t.delta) || t.polish_refine_iter < 0) return false;
  if (setup) { if (!b01(t.allocate_solution) || t.scaling < 0 || !pos(t.rho) || !b01(t.rho_is_vec) || !pos(t.sigma) || t.adaptive_rho < 0 || t.adaptive_rho > 3 || t.adaptive_rho_interval < 0 || !pos(t.adaptive_rho_fraction) || !(t.adaptive_rho_tolerance >= 1)) return false;
    OSQPInt cap = osqp_capabilities(); if (!((t.linsys_solver == OSQP_DIRECT_SOLVER && (cap & OSQP_CAPABILITY_DIRECT_SOLVER)) || (t.linsys_solver == OSQP_INDIRECT_SOLVER && (cap & OSQP_CAPABILITY_INDIRECT_SOLVER)))) return false; }
  return true;
}
PROPERTY(C10, settings_table, 2, "always (a settings structure was judged by the table)") {
  GenOpt o; o.nmax = 2; o.mmax = 2; Prob p = gen_kkt(s, o); OSQPSettings t = edge_settings(s); std::string w, what; int k = s.range(0, 2); for (int i = 0; i < k; i++) { break_setting(s, t, true, w); what += w + " "; }
  log_settings(c, t); c.log("changed: %s", what.c_str()); bool at = s.chance(1, 2);
  if (at) { Osqp q; int f = q.setup(p, t); bool v = settings_valid(t, true); c.label(v ? "valid" : "invalid"); CHECK(c, f == (v ? 0 : OSQP_SETTINGS_VALIDATION_ERROR) && (q.s != nullptr) == v, v ? "valid:setup-refused" : "invalid:code", "setup with %s settings returned %d", v ? "valid" : "invalid", f); }
  else { Osqp q; q.setup(p, defaults()); int f = (int)osqp_update_settings(q.s, &t); bool v = settings_valid(t, false); c.label(v ? "valid" : "invalid"); CHECK(c, (f == 0) == v, v ? "valid:update-refused" : "invalid:update-accepted", "update with %s settings returned %d", v ? "valid" : "invalid", f); if (!v) CHECK(c, f == OSQP_SETTINGS_VALIDATION_ERROR, "invalid:code", "update with invalid settings returned %d", f); }
  c.nontrivial();
}
PROPERTY(C10, updates, 3, "both valid and invalid updates were issued") {
  Prob p = edge_problem(s); SetOpt so; OSQPSettings st = gen_settings(s, so); st.max_iter = std::min((int)st.max_iter, 300); log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); OpOpt oo; oo.wSolve = 1; oo.so.timed = true; oo.moderate = s.chance(2, 3); bool ok = false, bad = false, mat = false; int k = s.range(2, 10);
  for (int i = 0; i < k; i++) {
    if (s.chance(1, 3)) { Bad b = gen_bad(s, p, *q.s->settings); c.log("invalid: %s", b.what.c_str()); if (b.op.k == O_VEC) log_op(c, b.op); int f = apply_bad(q, b); CHECK(c, f != 0, "invalid:update-accepted", "an update with %s returned 0", b.what.c_str()); if (b.op.k == O_VEC) CHECK(c, f == OSQP_DATA_VALIDATION_ERROR, "invalid:code", "an update with %s returned %d", b.what.c_str(), f); bad = true; continue; }
    Op op = gen_op(s, p, st, oo); log_op(c, op); if (op.k == O_VEC && mat && st.scaling && tight_bound(p, op)) { c.label("skipped:one-sided-equal-bounds"); continue; }
    int f = apply_op(q, op); if (f && (op.k == O_MAT || op.k == O_RHO || op.k == O_VEC) && hopeless(p, *q.s->settings)) { c.label("ill-conditioned"); return; } if (op.k != O_SOLVE) CHECK(c, f == 0, std::string("valid:") + op_name(op.k), "a valid %s returned %d", op_name(op.k), f); mat |= op.k == O_MAT; model_op(p, op); if (op.k != O_SOLVE) ok = true;
  }
  if (ok && bad) c.nontrivial();
}
