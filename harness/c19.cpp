// C19: answers depend neither on tuning nor on how the problem is written.
#include "opt.hpp"
namespace {
// from-scratch problem in dense form, with its known optimum, that can be rewritten
struct Dn { int n, m; std::vector<std::vector<double>> P, A; std::vector<char> pp, pa; std::vector<double> q, l, u; VL xs, ys; std::vector<int> dup; };
Dn open(const Prob& p) { Dn d; d.n = p.n; d.m = p.m; auto P = denseSym(p.P); auto A = dense(p.A); d.P.assign(p.n, std::vector<double>(p.n)); d.A.assign(p.m, std::vector<double>(p.n)); for (int i = 0; i < p.n; i++) for (int j = 0; j < p.n; j++) d.P[i][j] = P[i * p.n + j]; for (int i = 0; i < p.m; i++) for (int j = 0; j < p.n; j++) d.A[i][j] = A[i * p.n + j]; d.q.assign(p.q.begin(), p.q.end()); d.l.assign(p.l.begin(), p.l.end()); d.u.assign(p.u.begin(), p.u.end()); d.xs = p.xs; d.ys = p.ys; return d; }
Prob close_(const Dn& d, const Prob& like) { Prob p = like; p.n = d.n; p.m = d.m; std::vector<double> P(d.n * d.n), A(d.m * d.n); for (int i = 0; i < d.n; i++) for (int j = 0; j < d.n; j++) P[i * d.n + j] = d.P[i][j]; for (int i = 0; i < d.m; i++) for (int j = 0; j < d.n; j++) A[i * d.n + j] = d.A[i][j]; p.P = csc_from_dense(d.n, d.n, P, std::vector<char>(d.n * d.n, 0), true); p.A = csc_from_dense(d.m, d.n, A, std::vector<char>(d.m * d.n, 0), false); p.q.resize(d.n); p.l.resize(d.m); p.u.resize(d.m); for (int j = 0; j < d.n; j++) p.q[j] = (OSQPFloat)d.q[j]; for (int i = 0; i < d.m; i++) { p.l[i] = (OSQPFloat)d.l[i]; p.u[i] = (OSQPFloat)d.u[i]; } p.xs = d.xs; p.ys = d.ys; p.uniqY = false; return p; }
void swap_vars(Dn& d, int a, int b) { std::swap(d.P[a], d.P[b]); for (auto& r : d.P) std::swap(r[a], r[b]); for (auto& r : d.A) std::swap(r[a], r[b]); std::swap(d.q[a], d.q[b]); if (d.xs.size()) std::swap(d.xs[a], d.xs[b]); }
void swap_rows(Dn& d, int a, int b) { std::swap(d.A[a], d.A[b]); std::swap(d.l[a], d.l[b]); std::swap(d.u[a], d.u[b]); if (d.ys.size()) std::swap(d.ys[a], d.ys[b]); }
void neg_row(Dn& d, int i) { for (auto& v : d.A[i]) if (v != 0) v = -v; double t = d.l[i]; d.l[i] = -d.u[i]; d.u[i] = -t; if (d.ys.size()) d.ys[i] = -d.ys[i]; }
void neg_var(Dn& d, int j) { for (int i = 0; i < d.n; i++) if (i != j) { if (d.P[i][j] != 0) d.P[i][j] = -d.P[i][j]; if (d.P[j][i] != 0) d.P[j][i] = -d.P[j][i]; } for (auto& r : d.A) if (r[j] != 0) r[j] = -r[j]; d.q[j] = -d.q[j]; if (d.xs.size()) d.xs[j] = -d.xs[j]; }
}
// Rewritings under which the method itself is equivariant: iterates agree after any number of steps
PROPERTY(C19, equivariant, 3, "at least one permutation or negation of a problem with a constraint, compared after at least one iteration") {
  GenOpt o; o.scaleRows = s.chance(1, 3); o.well = s.chance(2, 3); Prob p = gen_any(s, o); SetOpt so; so.linsys = false; so.polish = false; so.wild = false; OSQPSettings st = gen_settings(s, so); st.adaptive_rho = 0; st.check_termination = 0; st.polishing = 0; st.max_iter = s.range(1, 80);
  p.P = csc_from_dense(p.n, p.n, dense(p.P), std::vector<char>(p.n * p.n, 0), true); p.A = csc_from_dense(p.m, p.n, dense(p.A), std::vector<char>(p.m * p.n, 0), false);
  bool diag = true; for (int j = 0; j < p.n; j++) for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) if (p.P.i[k] != j) diag = false;
  Dn d = open(p); bool any = false; std::vector<int> vp(p.n), rp(p.m), vs(p.n, 1), rs(p.m, 1); for (int i = 0; i < p.n; i++) vp[i] = i; for (int i = 0; i < p.m; i++) rp[i] = i;
  if (diag || !st.scaling) for (int i = p.n; i > 1; i--) { int j = (int)s.draw(i); int b = i - 1; if (j != b) { swap_vars(d, j, b); std::swap(vp[j], vp[b]); any = true; } }   // norms used for scaling are those of the stored triangle
  for (int i = p.m; i > 1; i--) { int j = (int)s.draw(i); int b = i - 1; if (j != b) { swap_rows(d, j, b); std::swap(rp[j], rp[b]); any = true; } }
  for (int j = 0; j < p.n; j++) if (s.chance(1, 3)) { neg_var(d, j); vs[j] = -1; any = true; } for (int i = 0; i < p.m; i++) if (s.chance(1, 3)) { neg_row(d, i); rs[i] = -1; any = true; }
  Prob z = close_(d, p); log_prob(c, p); log_settings(c, st); c.log("rewritten:"); log_prob(c, z);
  Osqp a, b; int fa = a.setup(p, st), fb = b.setup(z, st); CHECK(c, fa == fb, "rewrite:setup", "setup returned %d, and %d for the rewritten problem", fa, fb); if (fa) c.discard();
  bool ws = s.chance(1, 3); if (ws) { V x(p.n), y(p.m), x2(p.n), y2(p.m); for (auto& v : x) v = (OSQPFloat)gval(s, true); for (auto& v : y) v = (OSQPFloat)gval(s, true); for (int j = 0; j < p.n; j++) x2[j] = vs[j] * x[vp[j]]; for (int i = 0; i < p.m; i++) y2[i] = rs[i] * y[rp[i]]; osqp_warm_start(a.s, x.data(), y.data()); osqp_warm_start(b.s, x2.data(), y2.data()); c.log("both warm started"); }
  Result r = a.run(), t = b.run(); c.log("%s, rewritten %s", st_name(r.st()), st_name(t.st())); c.label(std::string("status:") + st_name(r.st())); if (r.st() != t.st()) { c.label("status-at-threshold"); return; }
  double big = 1; for (auto v : r.x) big = std::max(big, fabs((double)v)); for (auto v : r.y) big = std::max(big, fabs((double)v)); if (!st_hassol(r.st()) || big > 1e5) return;
  Resid R = residuals(p, r.x, r.y); double mag = std::max(big, (double)std::max(R.aAx, std::max(R.aAty, R.aPx))); double tol = 1e-7 * mag * 10; if (st.scaling == 0 && p.scl > 1) tol *= 100; { std::vector<bool> dg(p.n, false); for (int j = 0; j < p.n; j++) for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) if (p.P.i[k] == j && p.P.x[k] != 0) dg[j] = true; if (std::count(dg.begin(), dg.end(), false)) tol *= 2 + (double)r.info.iter / 5; }   // directions held by sigma alone: every step is solved less accurately
  double rmax = (st.rho_is_vec ? 1e3 : 1) * (double)st.rho; double tx = tol, ty = tol * std::max(1.0, rmax); if (tx > 1e-2 * big || ty > 0.1 * big) { c.label("too-sensitive"); return; }
  for (int j = 0; j < p.n; j++) CHECK(c, fabs((double)(vs[j] * t.x[j] - r.x[vp[j]])) <= tx, "rewrite:x", "after %d iterations variable %d is %.12g, in the rewritten problem %.12g (allowed difference %g)", (int)r.info.iter, vp[j], (double)r.x[vp[j]], (double)(vs[j] * t.x[j]), tx);
  for (int i = 0; i < p.m; i++) CHECK(c, fabs((double)(rs[i] * t.y[i] - r.y[rp[i]])) <= ty, "rewrite:y", "after %d iterations multiplier %d is %.12g, in the rewritten problem %.12g (allowed difference %g)", (int)r.info.iter, rp[i], (double)r.y[rp[i]], (double)(rs[i] * t.y[i]), ty);
  CHECK(c, fabs((double)(r.info.obj_val - t.info.obj_val)) <= tx * 100 * mag, "rewrite:objective", "objective %.12g against %.12g", (double)r.info.obj_val, (double)t.info.obj_val);
  if (any && p.m) c.nontrivial();
}
// Other values for infinity: exactly the same run
PROPERTY(C19, infinity, 1, "the problem has an infinite bound") {
  GenOpt o; Prob p = gen_any(s, o); SetOpt so; so.timed = false; OSQPSettings st = gen_settings(s, so); if (st.adaptive_rho == 2) st.adaptive_rho = 1; Prob z = p; bool any = false; for (int i = 0; i < p.m; i++) { if (is_inf_bound(p.l[i])) { z.l[i] = (OSQPFloat)-ginf(s); any |= z.l[i] != p.l[i]; } if (is_inf_bound(p.u[i])) { z.u[i] = (OSQPFloat)ginf(s); any |= z.u[i] != p.u[i]; } }
  log_prob(c, p); log_prob(c, z); log_settings(c, st); Osqp a, b; if (a.setup(p, st)) c.discard(); CHECK(c, b.setup(z, st) == 0, "infty:setup", "setup fails with other infinite values"); Result r = a.run(), t = b.run(); std::string d = diff_results(r, t, 0, 0); CHECK(c, d.empty(), "infty:result", "other values for infinity change the result: %s", d.c_str()); if (any) c.nontrivial();
}
// General rewritings and any tuning: the optimum found is the transformed one
PROPERTY(C19, answer, 4, "solved after at least one rewriting, with tolerances that pin down the solution") {
  GenOpt o; o.well = true; o.scaleRows = false; o.pd = s.chance(3, 4); Prob p = !o.pd && s.chance(1, 2) ? gen_lp(s, o) : gen_kkt(s, o); Dn d = open(p); int k = s.range(0, 4); bool dupd = false; std::string w; double cs = 1;
  for (int t = 0; t < k; t++) switch (s.range(0, 8)) {
    case 0: if (d.n > 1) { swap_vars(d, (int)s.draw(d.n), (int)s.draw(d.n)); w += "swap variables; "; } break;
    case 1: if (d.m > 1) { swap_rows(d, (int)s.draw(d.m), (int)s.draw(d.m)); w += "swap rows; "; } break;
    case 2: if (d.m) { neg_row(d, (int)s.draw(d.m)); w += "negate row; "; } break;
    case 3: { neg_var(d, (int)s.draw(d.n)); w += "negate variable; "; break; }
    case 4: if (d.m) { int i = (int)s.draw(d.m); double f = pow(2., s.range(-3, 3)); for (auto& v : d.A[i]) v *= f; if (!is_inf_bound(d.l[i])) d.l[i] *= f; if (!is_inf_bound(d.u[i])) d.u[i] *= f; d.ys[i] /= f; w += "scale row; "; } break;
    case 5: { double f = pow(2., s.range(-3, 3)); cs *= f; if (cs > 8 || cs < 0.125) { cs /= f; break; } for (auto& r : d.P) for (auto& v : r) v *= f; for (auto& v : d.q) v *= f; for (auto& v : d.ys) v *= f; w += "scale cost; "; break; }
    case 6: { int j = (int)s.draw(d.n); double f = pow(2., s.range(-2, 2)); for (int i = 0; i < d.n; i++) { d.P[i][j] *= f; } for (int i = 0; i < d.n; i++) d.P[j][i] *= f; for (auto& r : d.A) r[j] *= f; d.q[j] *= f; d.xs[j] /= f; w += "scale variable; "; break; }
    case 7: { std::vector<double> sh(d.n); for (auto& v : sh) v = s.range(-4, 4) * 0.25; for (int i = 0; i < d.n; i++) { double a = 0; for (int j = 0; j < d.n; j++) a += d.P[i][j] * sh[j]; d.q[i] -= a; } for (int i = 0; i < d.m; i++) { double a = 0; for (int j = 0; j < d.n; j++) a += d.A[i][j] * sh[j]; if (!is_inf_bound(d.l[i])) d.l[i] += a; if (!is_inf_bound(d.u[i])) d.u[i] += a; } for (int j = 0; j < d.n; j++) d.xs[j] += sh[j]; w += "shift; "; break; }   // x' = x + sh
    default: if (d.m) { int i = (int)s.draw(d.m); bool eq = d.l[i] == d.u[i]; int how = s.range(0, 1); d.A.push_back(d.A[i]); d.ys.push_back(0); if (how == 0 || eq) { d.l.push_back(d.l[i]); d.u.push_back(d.u[i]); w += "duplicate row; "; } else { double L = d.l[i], U = d.u[i]; d.l[i] = -OSQP_INFTY; d.l.push_back(L); d.u.push_back(OSQP_INFTY); if (d.ys[i] < 0) { d.ys.back() = d.ys[i]; d.ys[i] = 0; } (void)U; w += "split row; "; } d.m++; dupd = true; } break; }
  Prob z = close_(d, p); if (dupd) z.kind = K_KKT;
  SetOpt so; so.limits = false; so.scaledTerm = false; so.tol = false; OSQPSettings st = gen_settings(s, so); bool ind = st.linsys_solver == OSQP_INDIRECT_SOLVER; double e = ind ? 1e-5 : s.chance(1, 2) ? 1e-6 : 1e-7; st.eps_abs = st.eps_rel = (OSQPFloat)e; st.eps_prim_inf = st.eps_dual_inf = (OSQPFloat)1e-8; st.max_iter = 5000; if (!st.check_termination) st.check_termination = 10; if (st.adaptive_rho == 2) st.adaptive_rho_interval = 20;
  c.log("rewriting: %s", w.c_str()); log_prob(c, z); log_settings(c, st); Osqp q; CHECK(c, q.setup(z, st) == 0, "rewrite:setup", "setup of the rewritten problem fails"); Result r = q.run(); c.log("%s iter %d", st_name(r.st()), (int)r.info.iter); c.label(std::string("status:") + st_name(r.st()));
  if (st_pinf(r.st())) check_pinf(c, z, q, r); if (st_dinf(r.st())) check_dinf(c, z, q, r);
  if (!st_solved(r.st())) {  // wild tuning may be slow; the plain method with default tuning must not be
    if (o.pd && !ind && !dupd) { OSQPSettings t = defaults(); t.max_iter = 200000; t.adaptive_rho = 0; t.eps_abs = t.eps_rel = (OSQPFloat)1e-5; Osqp f(z, t); Result y = f.run(); if (st_pinf(y.st()) || st_dinf(y.st())) { c.label("no-slack"); return; } CHECK(c, st_solved(y.st()), "rewrite:not-solved", "the rewritten problem ended '%s' with default tuning", y.info.status); check_opt(c, z, f, y); } return; }
  check_solved(c, z, q, r); check_opt(c, z, q, r); check_signs(c, z, q, r, rho_hi(q) * 1e3);
  Bound b; if (k && opt_bounds(z, st, r, b) && b.up + b.lo < 1e-2L) c.nontrivial();
}
