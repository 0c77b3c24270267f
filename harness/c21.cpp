// C21: clearly non-convex problems are refused by the direct solver; convex ones never are.
#include "hist.hpp"
// The built-in factorisation does not pivot: a cost that is only made positive by the constraints may meet a zero pivot.
#ifdef WRAP_MKL
static const bool PIVOTS = true;
#else
static const bool PIVOTS = false;
#endif
// Smallest eigenvalue of the reduced matrix  c D P D + sigma I + (E A D)' diag(rho) (E A D)  relative to its size: its sign
// is what the linear system reveals about convexity (curvature that the constraints do not restrain).
static bool reduced(const Prob& p, const OSQPSettings& st, int scaling, double& lam, double& size, bool& edge) {
  int n = p.n, m = p.m; VL D(n, 1), E(m, 1); ld cc = 1; edge = false; if (scaling) scaling_ref(p, scaling, D, E, cc, edge);
  auto P = denseSym(p.P); auto A = dense(p.A); std::vector<double> M(n * n, 0.); double rho = std::min(std::max((double)st.rho, 1e-6), 1e6);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M[i * n + j] = (double)(cc * D[i] * P[i * n + j] * D[j]) + (i == j ? (double)st.sigma : 0);
  for (int k = 0; k < m; k++) { bool eq = (E[k] * p.u[k] - E[k] * p.l[k]) < 1e-4L, un = is_inf_bound(p.l[k]) && is_inf_bound(p.u[k]); if (un) eq = false; double gp = (double)(E[k] * p.u[k] - E[k] * p.l[k]); if (!un && gp > 0.9e-4 && gp < 1.1e-4) edge = true; double r = !st.rho_is_vec ? rho : un ? 1e-6 : eq ? 1e3 * rho : rho; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M[i * n + j] += r * (double)(E[k] * A[k * n + i] * D[i]) * (double)(E[k] * A[k * n + j] * D[j]); }
  auto e = eigs(M, n); lam = e[0]; size = std::max(fabs(e[0]), fabs(e[n - 1])); return true;
}
static void bend(Src& s, Prob& p) {   // make the cost non-convex, or nearly so, on its pattern (the diagonal is always stored)
  std::vector<double> d = denseSym(p.P); int n = p.n; int k = s.range(1, 2); for (int t = 0; t < k; t++) { int i = (int)s.draw(n); double f = s.chance(1, 2) ? 0.25 * s.range(1, 12) : pow(10., -5 + 7 * s.unit()); d[i * n + i] -= f; }
  if (n > 1 && s.chance(1, 3)) { int i = (int)s.draw(n), j = (int)s.draw(n); if (i != j) { double f = 0.5 * s.range(1, 8); d[i * n + j] += f; d[j * n + i] += f; } }
  std::vector<char> pat(n * n, 0); for (int i = 0; i < n; i++) pat[i * n + i] = 1; p.P = csc_from_dense(n, n, d, pat, true); p.kind = K_ANY; p.hasOpt = p.uniqX = p.uniqY = false;
}
// The iteration has no convergence guarantee while the step size changes at every few iterations, or when the linear systems are hardly solved: it may diverge.
static bool restless(Osqp& q) { const OSQPSettings* t = q.s->settings; if (t->linsys_solver == OSQP_INDIRECT_SOLVER && t->cg_max_iter < 20) return true; return (t->adaptive_rho == 1 || t->adaptive_rho == 2) && t->adaptive_rho_interval < 25; }
PROPERTY(C21, setup, 3, "the cost has a negative eigenvalue of a size the solver can see") {
  GenOpt o; o.scaleRows = s.chance(1, 3); Prob p = gen_any(s, o); bend(s, p); SetOpt so; so.linsys = false; OSQPSettings st = gen_settings(s, so); if (s.chance(1, 3)) st.scaling = 0; log_prob(c, p); log_settings(c, st);
  double lam, size; bool edge; reduced(p, st, (int)st.scaling, lam, size, edge); vmem_reset(); int f; { Osqp q; f = q.setup(p, st); c.log("reduced matrix: smallest eigenvalue %g of size %g; setup returned %d", lam, size, f);
    if (f == 0) { Result r = q.run(); c.label(std::string("accepted:") + st_name(r.st())); } }
  CHECK(c, vmem_live() == 0 && vmem_bad() == 0, "ncvx:leak", "%ld allocations left after cleaning up a setup that returned %d", vmem_live(), f); CHECK(c, f == 0 || f == OSQP_NONCVX_ERROR, "ncvx:code", "setup of a problem whose cost is not convex returned %d", f);
  if (edge) { c.label("edge"); return; } if (lam < -1e-7 * size) { CHECK(c, f == OSQP_NONCVX_ERROR, "ncvx:accepted", "setup returned %d although the cost is negative (%g) along an unrestrained direction", f, lam); c.label("refused"); c.nontrivial(); }
  else if (lam > 1e-7 * size) { CHECK(c, f == 0 || (!PIVOTS && min_eig(denseSym(p.P), p.n) < 0), "ncvx:refused", "setup returned %d although the regularised problem is positive definite (%g)", f, lam); double l0 = min_eig(denseSym(p.P), p.n); if (l0 < 0) { c.label("restrained"); c.nontrivial(); } } else c.label("borderline");
}
PROPERTY(C21, update, 3, "a matrix update to a visibly non-convex cost after at least one other call") {
  GenOpt o; o.scaleRows = s.chance(1, 3); Prob p = gen_any(s, o); { std::vector<char> pat(p.n * p.n, 0); for (int i = 0; i < p.n; i++) for (int j = i; j < p.n; j++) pat[i * p.n + j] = i == j || s.chance(1, 2); p.P = csc_from_dense(p.n, p.n, denseSym(p.P), pat, true); } Prob good = p;
  SetOpt so; so.linsys = false; OSQPSettings st = gen_settings(s, so); if (s.chance(1, 2)) st.scaling = 0; log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); int k = s.range(0, 2); for (int i = 0; i < k; i++) { q.run(); c.log("solve"); }
  V nx = p.P.x; int how = s.range(0, 2); if (how == 0) { for (auto& v : nx) v = -v; } for (int j = 0; j < p.n; j++) for (OSQPInt e = p.P.p[j]; e < p.P.p[j + 1]; e++) if (p.P.i[e] == j && (how != 2 || s.chance(1, 2))) nx[e] = (OSQPFloat)((double)nx[e] - (s.chance(1, 2) ? 0.5 * s.range(1, 8) : pow(10., -4 + 6 * s.unit())));
  Prob bad = p; bad.P.x = nx; OSQPSettings t = st; t.rho = q.s->settings->rho; int f; bool part = s.chance(1, 3); if (!part) f = (int)osqp_update_data_mat(q.s, nx.data(), nullptr, 0, nullptr, nullptr, 0); else { VI ix; for (size_t e = 0; e < nx.size(); e++) ix.push_back((OSQPInt)e); f = (int)osqp_update_data_mat(q.s, nx.data(), ix.data(), (OSQPInt)nx.size(), nullptr, nullptr, 0); }
  double lam, size; bool edge; reduced(bad, t, (int)st.scaling, lam, size, edge); c.log("update to:"); log_prob(c, bad); c.log("reduced matrix: smallest eigenvalue %g of size %g; the update returned %d", lam, size, f);
  if (edge) c.label("edge"); else if (lam < -1e-7 * size) { CHECK(c, f != 0, "ncvx:update-accepted", "an update to a cost that is negative (%g) along an unrestrained direction returned 0", lam); c.nontrivial(); c.label("refused"); } else if (lam > 1e-7 * size) CHECK(c, f == 0 || (!PIVOTS && min_eig(denseSym(bad.P), bad.n) < 0), "ncvx:update-refused", "an update to a problem whose regularised cost is positive definite (%g) returned %d", lam, f);
  // back to a convex cost: accepted, and everything works again
  double l2, s2; bool e2; reduced(good, t, (int)st.scaling, l2, s2, e2); f = (int)osqp_update_data_mat(q.s, good.P.x.data(), nullptr, 0, nullptr, nullptr, 0); if (l2 > 1e-9 * s2) CHECK(c, f == 0, "ncvx:convex-refused", "an update back to a convex cost returned %d", f); if (f) return; osqp_cold_start(q.s); Result r = q.run(); c.log("back: %s", r.info.status); if (r.st() == OSQP_NON_CVX && restless(q)) { c.label("restless"); return; } if (r.st() == OSQP_NON_CVX) { OSQPSettings t2 = *q.s->settings; reduced(good, t2, (int)st.scaling, l2, s2, e2); if (l2 < 1e-9 * s2) { c.label("hopeless"); return; } } if (st_solved(r.st())) check_solved(c, good, q, r); CHECK(c, r.st() != OSQP_NON_CVX, "ncvx:convex-status", "a convex problem is reported non-convex");
}
PROPERTY(C21, convex, 3, "a convex problem with a singular cost or badly scaled data went through setup, updates and solves") {
  GenOpt o; o.scaleRows = true; Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); log_prob(c, p); log_settings(c, st); double lam, size; bool edge; reduced(p, st, (int)st.scaling, lam, size, edge); int f; Osqp q; f = q.setup(p, st); if (lam < (PIVOTS ? 1e-12 : 1e-9) * size && f) { c.label("hopeless"); c.discard(); } CHECK(c, f == 0, "ncvx:convex-refused", "setup of a convex problem returned %d", f);
  int k = s.range(1, 4); for (int i = 0; i < k; i++) { if (i) { Op op = s.chance(1, 2) ? gen_mat(s, p, false) : gen_vec(s, p, false); log_op(c, op); Prob nw = p; model_op(nw, op); OSQPSettings t = *q.s->settings; reduced(nw, t, (int)st.scaling, lam, size, edge); f = apply_op(q, op); if (f && (op.k != O_MAT || lam < 1e-10 * size)) return; CHECK(c, f == 0, "ncvx:convex-refused", "a matrix update to a convex problem returned %d (smallest eigenvalue %g of size %g)", f, lam, size); p = nw; }
    Result r = q.run(); if (r.st() == OSQP_NON_CVX || (r.flag && !PIVOTS)) { if (r.info.status_polish == OSQP_POLISH_LINSYS_ERROR) { c.label("polish-pivot"); return; } OSQPSettings t = *q.s->settings; reduced(p, t, (int)st.scaling, lam, size, edge); if (lam < 1e-9 * size || p.kind == K_PINF) { c.label("hopeless"); return; } }
    if (r.st() == OSQP_NON_CVX && restless(q)) { c.label("restless"); return; }
    CHECK(c, r.st() != OSQP_NON_CVX && r.flag == 0, "ncvx:convex-status", "a convex problem ended '%s', return code %d", r.info.status, r.flag); }
  if (p.scl > 1 || min_eig(denseSym(p.P), p.n) < 1e-9) c.nontrivial();
}
