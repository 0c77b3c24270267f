// Rigorous bounds around a known optimum, implied by the requested tolerances.
#pragma once
#include "hist.hpp"
struct Bound { ld up, lo, tp, td; };
// rigorous bounds on f(x)-f* implied by the *requested* tolerances (not by the returned residuals)
static inline bool opt_bounds(const Prob& p, const OSQPSettings& t, const Result& r, Bound& b) {
  ld f = r.st() == OSQP_SOLVED_INACCURATE ? 10 : 1, ea = f * t.eps_abs, er = f * t.eps_rel; if (er > 0.5L) return false;
  Resid R = residuals(p, r.x, r.y); ld x1 = 0, y1 = 0, rx1 = 0, ry1 = 0; for (auto v : p.xs) x1 += fabsl(v); for (auto v : p.ys) y1 += fabsl(v); for (auto v : r.x) rx1 += fabsl((ld)v); for (auto v : r.y) ry1 += fabsl((ld)v);
  b.tp = (ea + er * R.nAx) / (1 - er); b.td = ea + er * std::max(R.nq, std::max(R.nAty, R.nPx));
  ld gap = t.check_dualgap ? ea + er * std::max(fabsl(R.xPx), std::max(fabsl(R.qx), fabsl(R.sup))) : rx1 * b.td + ry1 * b.tp;
  ld rnd = (sizeof(OSQPFloat) == 8 ? 1e-9L : 1e-3L) * (1 + fabsl(R.xPx) + fabsl(R.qx) + fabsl(R.sup) + x1 * (R.nq + R.nAty + R.nPx));
  b.up = gap + b.td * x1 + rnd; b.lo = y1 * b.tp + rnd; return true;
}
static inline void check_opt(Ctx& c, const Prob& p, Osqp& q, const Result& r) {
  const OSQPSettings& t = *q.s->settings; if (t.scaling && t.scaled_termination) return; Bound b; if (!opt_bounds(p, t, r, b)) return;
  VL Px = mulP(p.P, p.xs); ld fs = dot(p.xs, Px) / 2 + dot(toL(p.q), p.xs); Resid R = residuals(p, r.x, r.y);
  CHECK(c, R.pobj - fs <= b.up, "opt:objective-high", "status %s: objective %.12Lg, optimum %.12Lg, tolerances allow at most %Lg more", r.info.status, R.pobj, fs, b.up);
  CHECK(c, R.pobj - fs >= -b.lo, "opt:objective-low", "status %s: objective %.12Lg, optimum %.12Lg, tolerances allow at most %Lg less", r.info.status, R.pobj, fs, b.lo);
  ld ax = 0; for (int j = 0; j < p.n; j++) ax += fabsl((ld)p.q[j] * r.x[j]); CHECK(c, fabsl(r.info.obj_val - fs) <= std::max(b.up, b.lo) + 1e-9L * (1 + ax + fabsl(fs)), "opt:reported-objective", "reported objective %.12g, optimum %.12Lg", (double)r.info.obj_val, fs);
  if (p.uniqX) { double lm = min_eig(denseSym(p.P), p.n); if (lm > 1e-9) { ld d = 0; for (int j = 0; j < p.n; j++) d += ((ld)r.x[j] - p.xs[j]) * ((ld)r.x[j] - p.xs[j]); d = sqrtl(d); ld lim = sqrtl(2 * (b.up + b.lo) / (lm * (1 - 1e-6L))); CHECK(c, d <= lim, "opt:solution", "unique optimum missed by %Lg, tolerances allow %Lg", d, lim); if (lim < 0.1L) c.label("unique-x-tight"); } }
  if (p.kind == K_LP && p.uniqY) {   // y on the active rows solves A_B' y = -q up to the dual residual
    std::vector<double> d = dense(p.A); int n = p.n; std::vector<ld> M(n * n); ld worst = 0; VL e(n), col;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) M[j * n + i] = d[i * n + j];       // A_B'
    for (int k = 0; k < n; k++) { std::fill(e.begin(), e.end(), 0); e[k] = 1; std::vector<ld> T(n * n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) T[i * n + j] = M[j * n + i]; if (!solve_dense(T, e, n, col)) return; ld s1 = 0; for (auto v : col) s1 += fabsl(v); worst = std::max(worst, s1); }  // row sums of inv(A_B')
    ld off = 0; for (int i = n; i < p.m; i++) { ld sl = 1e300L; if (!is_inf_bound(p.u[i])) sl = std::min(sl, p.u[i] - R.Ax[i]); if (!is_inf_bound(p.l[i])) sl = std::min(sl, R.Ax[i] - p.l[i]); if (sl <= b.tp * 1.001L + 1e-9L) return; for (int j = 0; j < n; j++) off = std::max(off, fabsl((ld)d[i * n + j] * r.y[i])); }
    ld lim = worst * (b.td + (p.m - n) * off) + 1e-8L * (1 + R.nAty); for (int i = 0; i < n; i++) CHECK(c, fabsl((ld)r.y[i] - p.ys[i]) <= lim, "opt:multiplier", "multiplier %d is %.12g, unique optimum has %.12Lg, tolerances allow a difference of %Lg", i, (double)r.y[i], p.ys[i], lim);
    c.label("unique-y");
  }
}
static inline double rho_hi(Osqp& q) { V r; if (peek_rho(q.s, r)) { double m = 0; for (auto v : r) m = std::max(m, (double)v); return std::max(m, 1e3 * (double)q.s->settings->rho); } return std::max(1e3, 1e3 * (double)q.s->settings->rho); }

