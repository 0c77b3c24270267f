#include "checks.hpp"
bool same_float(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
bool close(double a, double b, double rel, double abs) { if (same_float(a, b)) return true; return fabs(a - b) <= abs + rel * std::max(fabs(a), fabs(b)); }
bool vclose(const V& a, const V& b, double rel, double abs, int* at) {
  if (a.size() != b.size()) return false; double n = 0; for (auto v : a) if (fabs(v) > n && std::isfinite(v)) n = fabs(v); for (auto v : b) if (fabs(v) > n && std::isfinite(v)) n = fabs(v);
  for (size_t i = 0; i < a.size(); i++) if (!same_float(a[i], b[i]) && !(fabs(a[i] - b[i]) <= abs + rel * n)) { if (at) *at = (int)i; return false; }
  return true;
}
bool is_na(const V& v) { for (auto x : v) if (!(std::isnan(x) || x == OSQP_NAN)) return false; return true; }

// Rounding allowance: everything is recomputed from the returned (unscaled) pair, so the
// difference to what the solver saw is bounded by a few ulps of the largest intermediate.
static const ld RND = sizeof(OSQPFloat) == 8 ? 1e-11L : 1e-4L;

bool check_solved(Ctx& c, const Prob& p, Osqp& q, const Result& r) {
  const OSQPSettings& t = *q.s->settings; ld f = r.st() == OSQP_SOLVED_INACCURATE ? 10 : 1;
  ld ea = f * t.eps_abs, er = f * t.eps_rel;
  for (auto v : r.x) CHECK(c, std::isfinite(v), "solved:nonfinite-x", "status %s but x has a non-finite entry", r.info.status);
  for (auto v : r.y) CHECK(c, std::isfinite(v), "solved:nonfinite-y", "status %s but y has a non-finite entry", r.info.status);
  V D, E, Di, Ei, z; double cs = 1, ci = 1; bool scaled = t.scaling && t.scaled_termination; Prob ps; const Prob* pp = &p; V x = r.x, y = r.y;
  if (scaled) {   // criteria are those of the rescaled problem: rebuild it from the factors
    if (!peek_scaling(q.s, D, E, Di, Ei, cs, ci)) return false;
    ps = p; for (int j = 0; j < p.n; j++) { for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) ps.A.x[k] *= E[p.A.i[k]] * D[j]; for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) ps.P.x[k] *= cs * D[p.P.i[k]] * D[j]; ps.q[j] *= cs * D[j]; x[j] *= Di[j]; }
    for (int i = 0; i < p.m; i++) { if (!is_inf_bound(p.l[i])) ps.l[i] *= E[i]; if (!is_inf_bound(p.u[i])) ps.u[i] *= E[i]; y[i] *= Ei[i] * cs; }
    pp = &ps; c.label("scaled-termination");
  }
  Resid R = residuals(*pp, x, y);
  ld mag = 1 + R.nAx + R.aAx; for (int i = 0; i < p.m; i++) { if (!is_inf_bound(pp->l[i])) mag = std::max(mag, fabsl((ld)pp->l[i])); }
  // primal: z is some point of [l,u] with |Ax - z| < ea + er*max(|Ax|,|z|); |z| <= |Ax| + |Ax - z|
  bool nontriv = true;
  // A polished pair has residuals no larger than those of the pair that met the criteria (C15 compares the two), but the relative
  // tolerance at the polished point may be smaller: allow that, within limits.
  ld pf = r.info.status_polish == OSQP_POLISH_SUCCESS && er > 0 ? 1000 : 1;
  if (er < 0.999L) { ld tol = (ea + er * R.nAx) / (1 - er) * (1 + 1e-9L) + RND * mag;
    bool open = false; for (int i = 0; i < p.m; i++) open |= is_inf_bound(p.l[i]) || is_inf_bound(p.u[i]);
    if (pf > 1 && q.carry && open) nontriv = false;   // the z that met the criteria may have been far out on a free side: see above
    else CHECK(c, R.pdist <= pf * tol, "solved:primal-residual", "status %s: distance of Ax to [l,u] is %Lg, allowed %Lg (eps_abs %Lg eps_rel %Lg |Ax| %Lg)", r.info.status, R.pdist, tol, ea, er, R.nAx); }
  else nontriv = false;
  ld dn = std::max(R.nq, std::max(R.nAty, R.nPx)), dtol = ea + er * dn;
  CHECK(c, R.dres <= pf * dtol * (1 + 1e-9L) + RND * (1 + dn + R.aAty + R.aPx), "solved:dual-residual", "status %s: |Px+q+A'y| is %Lg, allowed %Lg (eps_abs %Lg eps_rel %Lg max %Lg)", r.info.status, R.dres, dtol, ea, er, dn);
  if (t.check_dualgap) { ld gn = std::max(fabsl(R.xPx), std::max(fabsl(R.qx), fabsl(R.sup))), gt = ea + er * gn;
    ld abssum = 0; for (int j = 0; j < p.n; j++) abssum += fabsl((ld)pp->q[j] * x[j]); for (int i = 0; i < p.m; i++) { if (y[i] > 0 && !is_inf_bound(pp->u[i])) abssum += fabsl((ld)y[i] * pp->u[i]); if (y[i] < 0 && !is_inf_bound(pp->l[i])) abssum += fabsl((ld)y[i] * pp->l[i]); } { for (int j = 0; j < p.n; j++) for (OSQPInt k = pp->P.p[j]; k < pp->P.p[j + 1]; k++) abssum += 2 * fabsl((ld)pp->P.x[k] * x[j] * x[pp->P.i[k]]); }
    CHECK(c, fabsl(R.gap) <= pf * gt * (1 + 1e-9L) + RND * (1 + abssum), "solved:duality-gap", "status %s: duality gap is %Lg, allowed %Lg (eps_abs %Lg eps_rel %Lg max %Lg)", r.info.status, R.gap, gt, ea, er, gn); }
  if (peek_z(q.s, z) && r.info.status_polish != OSQP_POLISH_SUCCESS) {   // sharper: with the solver's own z
    V zz = z; if (t.scaling && !scaled && peek_scaling(q.s, D, E, Di, Ei, cs, ci)) for (int i = 0; i < p.m; i++) zz[i] *= Ei[i];
    ld pr = 0, nz = 0; for (int i = 0; i < p.m; i++) { pr = std::max(pr, fabsl(R.Ax[i] - zz[i])); nz = std::max(nz, fabsl((ld)zz[i])); }
    if (p.m) CHECK(c, pr <= (ea + er * std::max(nz, R.nAx)) * (1 + 1e-9L) + RND * mag, "solved:primal-residual-z", "status %s: |Ax-z| is %Lg, allowed %Lg", r.info.status, pr, ea + er * std::max(nz, R.nAx));
    for (int i = 0; i < p.m; i++) { ld lo = pp->l[i], hi = pp->u[i]; CHECK(c, is_inf_bound((double)lo) || zz[i] >= lo - RND * (mag + fabsl(lo)), "solved:z-outside", "z[%d]=%g below l=%Lg", i, (double)zz[i], lo); CHECK(c, is_inf_bound((double)hi) || zz[i] <= hi + RND * (mag + fabsl(hi)), "solved:z-outside", "z[%d]=%g above u=%Lg", i, (double)zz[i], hi); }
  }
  return nontriv && ea + er < 0.5L;
}

void check_signs(Ctx& c, const Prob& p, Osqp& q, const Result& r, double rhomax) {
  if (!st_solved(r.st())) return;
  const OSQPSettings& t = *q.s->settings; if (t.scaling && t.scaled_termination) return; ld f = r.st() == OSQP_SOLVED_INACCURATE ? 10 : 1; ld er = f * t.eps_rel; if (er >= 0.9L) return;
  Resid R = residuals(p, r.x, r.y); ld tol = (f * t.eps_abs + er * R.nAx) / (1 - er) * (1 + 1e-9L); V D, E, Di, Ei; double cs, ci = 1; bool sc = peek_scaling(q.s, D, E, Di, Ei, cs, ci); if (t.scaling && !sc) return;
  ld ny = ninf(toL(r.y));
  for (int i = 0; i < p.m; i++) {
    ld e = sc ? E[i] : 1, cc = sc ? ci : 1; ld mag = 1 + R.nAx; if (!is_inf_bound(p.l[i])) mag += fabsl((ld)p.l[i]); if (!is_inf_bound(p.u[i])) mag += fabsl((ld)p.u[i]);
    ld thr = RND * 10 * ny + 1e-13L * (sizeof(OSQPFloat) == 8 ? 1 : 1e9L) * 1e3L * rhomax * e * e * cc * mag;   // rounding in y += rho*(...)
    if (r.y[i] > thr) { CHECK(c, !is_inf_bound(p.u[i]), "sign:positive-unbounded", "y[%d]=%g but u[%d] is infinite", i, (double)r.y[i], i); CHECK(c, p.u[i] - R.Ax[i] <= tol + RND * mag, "sign:positive-inactive", "y[%d]=%g > 0 but (Ax)=%Lg is below u=%g by more than %Lg", i, (double)r.y[i], R.Ax[i], (double)p.u[i], tol); }
    if (r.y[i] < -thr) { CHECK(c, !is_inf_bound(p.l[i]), "sign:negative-unbounded", "y[%d]=%g but l[%d] is infinite", i, (double)r.y[i], i); CHECK(c, R.Ax[i] - p.l[i] <= tol + RND * mag, "sign:negative-inactive", "y[%d]=%g < 0 but (Ax)=%Lg is above l=%g by more than %Lg", i, (double)r.y[i], R.Ax[i], (double)p.l[i], tol); }
  }
}

void check_info(Ctx& c, const Prob& p, Osqp& q, const Result& r) {
  const OSQPInfo& I = r.info; const OSQPSettings& t = *q.s->settings;
  CHECK(c, I.status_val >= 1 && I.status_val <= 11 && !strcmp(I.status, st_name(r.st())), "info:status-text", "status_val %d has text '%.31s'", (int)I.status_val, I.status);
  if (!st_hassol(r.st()) || r.st() == OSQP_SIGINT || r.st() == OSQP_UNSOLVED) return;
  bool fin = true; for (auto v : r.x) fin &= std::isfinite(v) && fabs(v) < 1e12; for (auto v : r.y) fin &= std::isfinite(v) && fabs(v) < 1e12; if (!fin) return;
  Resid R = residuals(p, r.x, r.y); ld ax = 0; for (int j = 0; j < p.n; j++) ax += fabsl((ld)p.q[j] * r.x[j]);
  { std::vector<double> S = denseSym(p.P); for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) ax += fabsl((ld)S[i * p.n + j] * r.x[i] * r.x[j]); }
  ld as = 0; for (int i = 0; i < p.m; i++) { if (!is_inf_bound(p.u[i])) as += fabsl((ld)r.y[i] * p.u[i]); if (!is_inf_bound(p.l[i])) as += fabsl((ld)r.y[i] * p.l[i]); }
  ld T = RND * 10; // few ulps of the terms added up
  V D, E, Di, Ei, z; double cs = 1, ci = 1; bool sc = peek_scaling(q.s, D, E, Di, Ei, cs, ci);
  ld dz = 1e-15L * (sc ? fabsl((ld)ci) : 1); // multipliers below the documented dead zone (scaled) are dropped from the support term
  ld sd = 0; for (int i = 0; i < p.m; i++) { ld e = sc ? Ei[i] * ci : 1; (void)e; if (!is_inf_bound(p.u[i])) sd += fabsl((ld)p.u[i]) * (sc ? E[i] * ci : 1) * 1e-15L; if (!is_inf_bound(p.l[i])) sd += fabsl((ld)p.l[i]) * (sc ? E[i] * ci : 1) * 1e-15L; } (void)dz;
  CHECK(c, fabsl(R.pobj - I.obj_val) <= T * (1 + ax), "info:obj_val", "status %s polish %d: obj_val %.17g, recomputed %.17Lg", I.status, (int)I.status_polish, (double)I.obj_val, R.pobj);
  CHECK(c, fabsl(R.dobj - I.dual_obj_val) <= T * (1 + ax + as) + sd, "info:dual_obj_val", "status %s polish %d: dual_obj_val %.17g, recomputed %.17Lg", I.status, (int)I.status_polish, (double)I.dual_obj_val, R.dobj);
  CHECK(c, fabsl((ld)I.obj_val - I.dual_obj_val - I.duality_gap) <= T * (1 + ax + as) , "info:gap-identity", "gap %.17g is not primal %.17g minus dual %.17g", (double)I.duality_gap, (double)I.obj_val, (double)I.dual_obj_val);
  { double kk = std::max(std::max((double)I.prim_res, (double)I.dual_res), (double)I.duality_gap), ka = std::max(kk, fabs((double)I.duality_gap)); CHECK(c, I.rel_kkt_error == (OSQPFloat)kk || I.rel_kkt_error == (OSQPFloat)ka, "info:rel_kkt_error", "status %s polish %d: rel_kkt_error %.17g with residuals %.17g and %.17g, gap %.17g", I.status, (int)I.status_polish, (double)I.rel_kkt_error, (double)I.prim_res, (double)I.dual_res, (double)I.duality_gap); }
  CHECK(c, fabsl(R.gap - I.duality_gap) <= T * (1 + ax + as) + sd, "info:duality_gap", "status %s polish %d: duality_gap %.17g, recomputed %.17Lg", I.status, (int)I.status_polish, (double)I.duality_gap, R.gap);
  ld dn = 1 + R.nq + R.nAty + R.nPx; ld an = 0; { std::vector<double> S = denseSym(p.P); for (int i = 0; i < p.n; i++) { ld t1 = 0; for (int j = 0; j < p.n; j++) t1 += fabsl((ld)S[i * p.n + j] * r.x[j]); dn = std::max(dn, 1 + R.nq + R.nAty + t1); } }
  { VL ay(p.n, 0); for (int j = 0; j < p.n; j++) { for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) ay[j] += fabsl((ld)p.A.x[k] * r.y[p.A.i[k]]); } an = ninf(ay); }
  bool scaledRes = t.scaling && t.scaled_termination;
  if (!scaledRes) CHECK(c, fabsl(R.dres - I.dual_res) <= T * (dn + an), "info:dual_res", "status %s polish %d: dual_res %.17g, recomputed %.17Lg", I.status, (int)I.status_polish, (double)I.dual_res, R.dres);
  else if (sc) { ld v = 0; VL g = mulP(p.P, toL(r.x)), a = mulAt(p.A, toL(r.y)); for (int j = 0; j < p.n; j++) v = std::max(v, fabsl((g[j] + a[j] + p.q[j]) * D[j] * cs)); CHECK(c, fabsl(v - I.dual_res) <= T * 1e2L * (dn + an) * (1 + cs) , "info:dual_res-scaled", "scaled dual_res %.17g, recomputed %.17Lg", (double)I.dual_res, v); }
  if (p.m == 0) { CHECK(c, I.prim_res == 0, "info:prim_res-m0", "prim_res %g without constraints", (double)I.prim_res); return; }
  ld mag = 1 + R.nAx; for (int i = 0; i < p.m; i++) { if (!is_inf_bound(p.l[i])) mag = std::max(mag, fabsl((ld)p.l[i])); if (!is_inf_bound(p.u[i])) mag = std::max(mag, fabsl((ld)p.u[i])); }
  { VL ax1(p.m, 0); for (int j = 0; j < p.n; j++) for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) ax1[p.A.i[k]] += fabsl((ld)p.A.x[k] * r.x[j]); mag += ninf(ax1); }
  if (!scaledRes) {
    CHECK(c, R.pdist <= I.prim_res + T * (mag + R.pdist), "info:prim_res-low", "status %s polish %d: prim_res %.17g but Ax is %.17Lg away from [l,u]", I.status, (int)I.status_polish, (double)I.prim_res, R.pdist);
    bool alleq = true; for (int i = 0; i < p.m; i++) alleq &= p.l[i] == p.u[i];
    if (alleq) CHECK(c, fabsl(R.pdist - I.prim_res) <= T * mag, "info:prim_res-eq", "equality problem: prim_res %.17g, recomputed %.17Lg", (double)I.prim_res, R.pdist);
  }
  if (peek_z(q.s, z) && (!t.scaling || sc)) {
    ld v = 0; for (int i = 0; i < p.m; i++) { ld zi = sc ? (ld)z[i] * Ei[i] : z[i]; ld d = fabsl(R.Ax[i] - zi); if (scaledRes && sc) d *= E[i]; v = std::max(v, d); }
    CHECK(c, fabsl(v - I.prim_res) <= T * (mag + v) * (scaledRes ? 1e2L : 1), "info:prim_res", "status %s polish %d: prim_res %.17g, recomputed %.17Lg", I.status, (int)I.status_polish, (double)I.prim_res, v);
  }
}

bool check_pinf(Ctx& c, const Prob& p, Osqp& q, const Result& r) {
  const OSQPSettings& t = *q.s->settings; ld f = r.st() == OSQP_PRIMAL_INFEASIBLE_INACCURATE ? 10 : 1, eps = f * t.eps_prim_inf;
  CHECK(c, r.info.obj_val >= OSQP_INFTY, "pinf:objective", "primal infeasible but obj_val = %g", (double)r.info.obj_val);
  CHECK(c, is_na(r.x) && is_na(r.y), "pinf:solution-marker", "primal infeasible but x/y are not marked as not available");
  CHECK(c, is_na(r.dc), "pinf:other-cert-marker", "primal infeasible but the dual infeasibility certificate is not marked as not available");
  VL v = toL(r.pc); ld n = ninf(v); CHECK(c, fabsl(n - 1) <= RND, "pinf:norm", "certificate has infinity norm %.17Lg", n);
  for (int i = 0; i < p.m; i++) { CHECK(c, !(is_inf_bound(p.u[i]) && v[i] > 0), "pinf:weight-inf-u", "v[%d]=%Lg > 0 on an infinite upper bound", i, v[i]); CHECK(c, !(is_inf_bound(p.l[i]) && v[i] < 0), "pinf:weight-inf-l", "v[%d]=%Lg < 0 on an infinite lower bound", i, v[i]); }
  ld sup = 0, as = 0; for (int i = 0; i < p.m; i++) { if (v[i] > 0) { sup += v[i] * p.u[i]; as += fabsl(v[i] * p.u[i]); } if (v[i] < 0) { sup += v[i] * p.l[i]; as += fabsl(v[i] * p.l[i]); } }
  CHECK(c, sup < RND * as, "pinf:support", "support value of the certificate is %Lg (terms of size %Lg), not negative", sup, as);
  if (t.scaling && t.scaled_termination) { c.label("scaled-termination"); // tolerance is on the rescaled problem
    V D, E, Di, Ei; double cs, ci; if (!peek_scaling(q.s, D, E, Di, Ei, cs, ci)) return true; VL vs = v; ld ns = 0; for (int i = 0; i < p.m; i++) { vs[i] *= Ei[i]; ns = std::max(ns, fabsl(vs[i])); } VL a = mulAt(p.A, v); ld w = 0; for (int j = 0; j < p.n; j++) w = std::max(w, fabsl(a[j] * D[j])); CHECK(c, w <= eps * ns * (1 + 1e-9L) + RND * (1 + ns), "pinf:scaled-product", "rescaled |A'v| = %Lg > %Lg", w, eps * ns); return true; }
  VL a = mulAt(p.A, v); ld amag = 0; for (int j = 0; j < p.n; j++) { ld sum = 0; for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) sum += fabsl((ld)p.A.x[k] * v[p.A.i[k]]); amag = std::max(amag, sum); }
  CHECK(c, ninf(a) <= eps * (1 + 1e-9L) + RND * amag, "pinf:product", "|A'v| = %Lg exceeds %Lg", ninf(a), eps);
  return true;
}
bool check_dinf(Ctx& c, const Prob& p, Osqp& q, const Result& r) {
  const OSQPSettings& t = *q.s->settings; ld f = r.st() == OSQP_DUAL_INFEASIBLE_INACCURATE ? 10 : 1, eps = f * t.eps_dual_inf;
  CHECK(c, r.info.obj_val <= -OSQP_INFTY, "dinf:objective", "dual infeasible but obj_val = %g", (double)r.info.obj_val);
  CHECK(c, is_na(r.x) && is_na(r.y), "dinf:solution-marker", "dual infeasible but x/y are not marked as not available");
  CHECK(c, is_na(r.pc), "dinf:other-cert-marker", "dual infeasible but the primal infeasibility certificate is not marked as not available");
  VL v = toL(r.dc); ld n = ninf(v); CHECK(c, fabsl(n - 1) <= RND, "dinf:norm", "certificate has infinity norm %.17Lg", n);
  ld qv = 0, aq = 0; for (int j = 0; j < p.n; j++) { qv += (ld)p.q[j] * v[j]; aq += fabsl((ld)p.q[j] * v[j]); } CHECK(c, qv < RND * aq, "dinf:cost", "q'v = %Lg is not negative", qv);
  VL Pv = mulP(p.P, v), Av = mulA(p.A, v); ld pm = 0; { VL t1(p.n, 0); std::vector<double> S = denseSym(p.P); for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) t1[i] += fabsl(S[i * p.n + j] * v[j]); pm = ninf(t1); }
  VL am(p.m, 0); for (int j = 0; j < p.n; j++) for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) am[p.A.i[k]] += fabsl((ld)p.A.x[k] * v[j]);
  VL rs(p.m, 1), cs2(p.n, 1); ld nv = 1;
  if (t.scaling && t.scaled_termination) { c.label("scaled-termination"); V D, E, Di, Ei; double cs, ci; if (!peek_scaling(q.s, D, E, Di, Ei, cs, ci)) return true; for (int i = 0; i < p.m; i++) rs[i] = E[i]; nv = 0; for (int j = 0; j < p.n; j++) { cs2[j] = D[j] * cs; nv = std::max(nv, fabsl(v[j] * Di[j])); } }
  for (int j = 0; j < p.n; j++) CHECK(c, fabsl(Pv[j]) * cs2[j] <= eps * nv * (1 + 1e-9L) + RND * (pm * cs2[j] + nv), "dinf:quadratic", "|(Pv)[%d]| = %Lg exceeds %Lg", j, fabsl(Pv[j]) * cs2[j], eps * nv);
  for (int i = 0; i < p.m; i++) { if (!is_inf_bound(p.u[i])) CHECK(c, Av[i] * rs[i] <= eps * nv * (1 + 1e-9L) + RND * (am[i] * rs[i] + nv), "dinf:recession-u", "(Av)[%d] = %Lg exceeds %Lg on a finite upper bound", i, Av[i] * rs[i], eps * nv); if (!is_inf_bound(p.l[i])) CHECK(c, Av[i] * rs[i] >= -eps * nv * (1 + 1e-9L) - RND * (am[i] * rs[i] + nv), "dinf:recession-l", "(Av)[%d] = %Lg below -%Lg on a finite lower bound", i, Av[i] * rs[i], eps * nv); }
  return true;
}
