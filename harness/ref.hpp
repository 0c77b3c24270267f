// Dense long-double reference of the documented operator-splitting method (with relaxation, per-constraint step sizes and
// step-size adaptation), working on the problem scaled by given factors.  A second instance with slightly perturbed data
// measures how sensitive the iterates are to rounding.
#pragma once
#include "hist.hpp"
struct RefAdmm {
  int n = 0, m = 0; VL D, E; ld c = 1; std::vector<ld> P, A; VL q, l, u, x, y, z, w; ld rho = 0.1L, sigma = 1e-6L, alpha = 1.6L, last = 1e30L; bool vec = true; int updates = 0; ld prim = 0, dual = 0, kkt = 0, est = 0; bool amb = false; std::vector<ld> K; bool fresh = false; uint64_t noise = 0;
  ld jit() { if (!noise) return 0; noise = noise * 6364136223846793005ULL + 1442695040888963407ULL; return ((ld)(noise >> 11) / 9007199254740992.0L - 0.5L); }
  void data(const Prob& p, const VL& D_, const VL& E_, ld c_) { n = p.n; m = p.m; D = D_; E = E_; c = c_; ld pe = sizeof(OSQPFloat) == 8 ? 4e-15L : 2e-6L; P.assign(n * n, 0); A.assign(m * n, 0); q.assign(n, 0); l.assign(m, 0); u.assign(m, 0);
    for (int j = 0; j < n; j++) { for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) { int i = (int)p.P.i[k]; ld v = (ld)p.P.x[k] * D[i] * D[j] * c * (1 + pe * jit()); P[i * n + j] = P[j * n + i] = v; } for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) { int i = (int)p.A.i[k]; A[i * n + j] = (ld)p.A.x[k] * E[i] * D[j] * (1 + pe * jit()); } q[j] = c * D[j] * p.q[j] * (1 + pe * jit()); }
    for (int i = 0; i < m; i++) { l[i] = E[i] * (ld)p.l[i]; u[i] = E[i] * (ld)p.u[i]; if ((is_inf_bound(p.l[i]) && l[i] > -1e26L) || (is_inf_bound(p.u[i]) && u[i] < 1e26L)) amb = true; }
    if (x.empty()) { x.assign(n, 0); y.assign(m, 0); z.assign(m, 0); } fresh = false; }
  static ld lim(ld r) { return std::min(std::max(r, (ld)(OSQPFloat)1e-6), (ld)1e6L); }
  void set_rho(ld r) { rho = lim(r); w.assign(m, rho); if (vec) for (int i = 0; i < m; i++) { bool il = l[i] < -1e26L, iu = u[i] > 1e26L; w[i] = il && iu ? (ld)(OSQPFloat)1e-6 : u[i] - l[i] < 1e-4L ? 1000 * rho : rho; if (fabsl(u[i] - l[i] - 1e-4L) < 1e-10L || fabsl(fabsl(l[i]) / 1e26L - 1) < 1e-6L || fabsl(fabsl(u[i]) / 1e26L - 1) < 1e-6L) amb = true; } fresh = false; }
  void cold() { x.assign(n, 0); y.assign(m, 0); z.assign(m, 0); }
  void warm(const V* wx, const V* wy) { if (wx) { for (int j = 0; j < n; j++) x[j] = (*wx)[j] / D[j]; for (int i = 0; i < m; i++) { z[i] = 0; for (int j = 0; j < n; j++) z[i] += A[i * n + j] * x[j]; } } if (wy) for (int i = 0; i < m; i++) y[i] = c * (*wy)[i] / E[i]; }
  bool factor() {   // inverse of P + sigma I + A' R A by elimination
    if (noise) {   // the rounding errors of a factorisation of the indefinite system without pivoting: perturb that system
      ld am = 0, pm = 0; for (auto v : A) am = std::max(am, fabsl(v)); for (auto v : P) pm = std::max(pm, fabsl(v)); std::vector<double> S(P.begin(), P.end()); ld lam = sigma + std::max(0.0, min_eig(S, n)); int N = n + m; ld eps = sizeof(OSQPFloat) == 8 ? 2.2e-16L : 1.2e-7L, g = std::max(am, am * am / lam); N_ = N; std::vector<ld> T(N * N, 0);
      for (int a = 0; a < n; a++) { for (int b = 0; b <= a; b++) { ld v = P[a * n + b] + (a == b ? sigma : 0) + 2 * eps * (a == b ? lam : 0) * jit(); T[a * N + b] = T[b * N + a] = v; } for (int i = 0; i < m; i++) T[a * N + n + i] = T[(n + i) * N + a] = A[i * n + a]; }
      for (int i = 0; i < m; i++) for (int j = 0; j <= i; j++) { ld v = (i == j ? -1 / w[i] * (1 + 4 * eps * jit()) : 0) + 4 * eps * g * jit(); T[(n + i) * N + n + j] = T[(n + j) * N + n + i] = v; }
      K.assign(N * N, 0); VL e(N), s; for (int k = 0; k < N; k++) { std::fill(e.begin(), e.end(), 0); e[k] = 1; if (!solve_dense(T, e, N, s)) return false; for (int a = 0; a < N; a++) K[a * N + k] = s[a]; } fresh = true; return true; }
    std::vector<ld> M(n * n); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { ld v = P[a * n + b] + (a == b ? sigma : 0); for (int i = 0; i < m; i++) v += A[i * n + a] * w[i] * A[i * n + b]; M[a * n + b] = v; }
    K.assign(n * n, 0); VL e(n), s; for (int k = 0; k < n; k++) { std::fill(e.begin(), e.end(), 0); e[k] = 1; if (!solve_dense(M, e, n, s)) return false; for (int a = 0; a < n; a++) K[a * n + k] = s[a]; } fresh = true; return true; }
  bool step() {
    if (!fresh && !factor()) return false; VL b(n), xt(n, 0), zt(m, 0); for (int j = 0; j < n; j++) { b[j] = sigma * x[j] - q[j]; for (int i = 0; i < m; i++) b[j] += A[i * n + j] * (w[i] * z[i] - y[i]); }
    if (noise) { int N = N_; VL h(N); for (int j = 0; j < n; j++) h[j] = sigma * x[j] - q[j]; for (int i = 0; i < m; i++) h[n + i] = z[i] - y[i] / w[i]; ld nh = ninf(h), pe = sizeof(OSQPFloat) == 8 ? 4e-16L : 2e-7L; for (auto& v : h) v += nh * pe * jit(); for (int a = 0; a < n; a++) for (int k = 0; k < N; k++) xt[a] += K[a * N + k] * h[k]; for (int i = 0; i < m; i++) { ld nu = 0; for (int k = 0; k < N; k++) nu += K[(n + i) * N + k] * h[k]; zt[i] = h[n + i] + nu / w[i]; } }
    else {
    ld nb = ninf(b), pe = sizeof(OSQPFloat) == 8 ? 4e-16L : 2e-7L; for (auto& v : b) v += nb * pe * jit();
    for (int a = 0; a < n; a++) for (int k = 0; k < n; k++) xt[a] += K[a * n + k] * b[k]; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) zt[i] += A[i * n + j] * xt[j]; }
    for (int j = 0; j < n; j++) x[j] = alpha * xt[j] + (1 - alpha) * x[j];
    for (int i = 0; i < m; i++) { ld t = alpha * zt[i] + (1 - alpha) * z[i], zn = std::min(std::max(t + y[i] / w[i], l[i]), u[i]); ey = std::max(ey, w[i] * (fabsl(t) + fabsl(z[i]) + fabsl(zt[i])) * E[i] / c); y[i] += w[i] * (t - zn); z[i] = zn; }
    return true; }
  void info() {
    VL Ax(m, 0), Px(n, 0), Aty(n, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { Ax[i] += A[i * n + j] * x[j]; Aty[j] += A[i * n + j] * y[i]; } for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) Px[a] += P[a * n + b] * x[b];
    ld sp = 0, sd = 0, np = 0, nd = 0; prim = dual = 0; for (int i = 0; i < m; i++) { ld r = fabsl(Ax[i] - z[i]); sp = std::max(sp, r); prim = std::max(prim, r / E[i]); np = std::max(np, std::max(fabsl(Ax[i]), fabsl(z[i]))); }
    for (int j = 0; j < n; j++) { ld r = fabsl(Px[j] + q[j] + Aty[j]); sd = std::max(sd, r); dual = std::max(dual, r / D[j] / c); nd = std::max(nd, std::max(fabsl(Px[j]), std::max(fabsl(q[j]), fabsl(Aty[j])))); }
    ld gap = dot(x, Px) + dot(q, x); for (int i = 0; i < m; i++) { if (y[i] > 0 && u[i] < 1e26L) gap += u[i] * y[i]; if (y[i] < 0 && l[i] > -1e26L) gap += l[i] * y[i]; } kkt = std::max(std::max(prim, dual), gap / c);
    ld rt = (sizeof(OSQPFloat) == 8 ? 1e-8L : 1e-3L); tiny = sp <= rt * np || sd <= rt * nd || sp < 1e-11L || sd < 1e-11L; est = lim(rho * sqrtl((sp / (np + 1e-30L)) / (sd / (nd + 1e-30L)))); }
  bool tiny = false; ld ey = 0; int N_ = 0;
};
// the pair: exact and perturbed
struct RefPair {
  RefAdmm a, b; ld dx = 0, dy = 0; bool ok = true; const char* why = "";
  void init(const Prob& p, const OSQPSettings& s, const VL& D, const VL& E, ld c, bool first) { b.noise = b.noise ? b.noise : 88172645463325252ULL; for (RefAdmm* r : {&a, &b}) { r->vec = s.rho_is_vec; r->sigma = s.sigma; r->alpha = s.alpha; r->data(p, D, E, c); if (first) r->set_rho(s.rho); else r->set_rho(r->rho); } }
  void stop(const char* w) { if (ok) { ok = false; why = w; } }
  void run(const OSQPSettings& s, int interval) {   // max_iter iterations; adaptation by iterations or by error
    a.last = b.last = 1e30L; if (!s.warm_starting) { a.cold(); b.cold(); }
    for (int k = 1; k <= (int)s.max_iter && ok; k++) {
      if (!a.step() || !b.step()) return stop("singular"); if (a.amb) return stop("bound at a threshold"); note();
      if (!s.adaptive_rho || !interval || k % interval) continue; a.info(); b.info();
      if (s.adaptive_rho == OSQP_ADAPTIVE_RHO_UPDATE_KKT_ERROR) { bool ya = a.kkt <= s.adaptive_rho_fraction * a.last; ld th = s.adaptive_rho_fraction * a.last; if (fabsl(a.kkt - th) <= 1e-6L * (a.kkt + th) + 1e3L * fabsl(a.kkt - b.kkt)) return stop("error at the threshold"); if (!ya) continue; }
      if (a.tiny || b.tiny) return stop("residual at rounding level"); ld rd = fabsl(a.est - b.est) / a.est; if (rd > 1e-9L) return stop("estimate sensitive"); ld t = s.adaptive_rho_tolerance, e = 1e-4L + 3e4L * rd;
      bool hi = a.est > a.rho * t, lo = a.est < a.rho / t; if (fabsl(a.est / (a.rho * t) - 1) < e || fabsl(a.est * t / a.rho - 1) < e) return stop("estimate at the threshold");
      if (hi || lo) { a.last = a.kkt; b.last = b.kkt; a.updates++; b.updates++; a.set_rho(a.est); b.set_rho(b.est); } } if (ok) { a.info(); b.info(); } }
  void note() { for (int j = 0; j < a.n; j++) dx = std::max(dx, fabsl(a.x[j] - b.x[j]) * a.D[j]); for (int i = 0; i < a.m; i++) dy = std::max(dy, fabsl(a.y[i] - b.y[i]) * a.E[i] / a.c); }
  ld tolx(ld rel) const { return rel * (1 + ninf(X())) + 3e5L * dx; }
  ld toly(ld rel) const { return rel * (1 + ninf(Y())) + 3e5L * dy + (sizeof(OSQPFloat) == 8 ? 1e-14L : 1e-5L) * a.ey; }
  VL X() const { VL r(a.n); for (int j = 0; j < a.n; j++) r[j] = a.D[j] * a.x[j]; return r; }
  VL Y() const { VL r(a.m); for (int i = 0; i < a.m; i++) r[i] = a.E[i] * a.y[i] / a.c; return r; }
};
// factors in force: read from the solver when possible, otherwise recomputed
static inline bool factors(Osqp& q, const Prob& p, int iters, VL& D, VL& E, ld& c) { V d, e, di, ei; double cc, ci; D.assign(p.n, 1); E.assign(p.m, 1); c = 1; if (!q.s->settings->scaling) return true; if (peek_scaling(q.s, d, e, di, ei, cc, ci)) { D = toL(d); E = toL(e); c = cc; return true; } bool edge; scaling_ref(p, iters, D, E, c, edge); return !edge; }
