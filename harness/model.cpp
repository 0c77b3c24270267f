#include "model.hpp"
#include <cstdio>

OSQPCscMatrix Csc::view() const {
  OSQPCscMatrix M; M.m = m; M.n = n; M.p = (OSQPInt*)p.data(); M.i = (OSQPInt*)i.data(); M.x = (OSQPFloat*)x.data(); M.nzmax = nnz(); M.nz = -1; M.owned = 0; return M;
}
Csc csc_from_dense(int m, int n, const std::vector<double>& d, const std::vector<char>& pat, bool upper) {
  Csc c; c.m = m; c.n = n; c.p.push_back(0);
  for (int j = 0; j < n; j++) { for (int i = 0; i < m; i++) if ((!upper || i <= j) && (pat[i * n + j] || d[i * n + j] != 0)) { c.i.push_back(i); c.x.push_back((OSQPFloat)d[i * n + j]); } c.p.push_back((OSQPInt)c.x.size()); }
  return c;
}
VL mulA(const Csc& A, const VL& x) { VL r(A.m, 0); for (int j = 0; j < A.n; j++) for (OSQPInt k = A.p[j]; k < A.p[j + 1]; k++) r[A.i[k]] += (ld)A.x[k] * x[j]; return r; }
VL mulAt(const Csc& A, const VL& y) { VL r(A.n, 0); for (int j = 0; j < A.n; j++) for (OSQPInt k = A.p[j]; k < A.p[j + 1]; k++) r[j] += (ld)A.x[k] * y[A.i[k]]; return r; }
VL mulP(const Csc& P, const VL& x) { VL r(P.n, 0); for (int j = 0; j < P.n; j++) for (OSQPInt k = P.p[j]; k < P.p[j + 1]; k++) { int i = (int)P.i[k]; r[i] += (ld)P.x[k] * x[j]; if (i != j) r[j] += (ld)P.x[k] * x[i]; } return r; }
VL toL(const V& v) { return VL(v.begin(), v.end()); }
V toF(const VL& v) { V r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = (OSQPFloat)v[i]; return r; }
ld ninf(const VL& v) { ld r = 0; for (ld a : v) { if (std::isnan((double)a)) return a; if (fabsl(a) > r) r = fabsl(a); } return r; }
ld dot(const VL& a, const VL& b) { ld r = 0; for (size_t i = 0; i < a.size(); i++) r += a[i] * b[i]; return r; }
std::vector<double> dense(const Csc& A) { std::vector<double> d((size_t)A.m * A.n, 0.); for (int j = 0; j < A.n; j++) for (OSQPInt k = A.p[j]; k < A.p[j + 1]; k++) d[A.i[k] * A.n + j] += A.x[k]; return d; }
std::vector<double> denseSym(const Csc& P) { int n = P.n; std::vector<double> d((size_t)n * n, 0.); for (int j = 0; j < n; j++) for (OSQPInt k = P.p[j]; k < P.p[j + 1]; k++) { int i = (int)P.i[k]; d[i * n + j] += P.x[k]; if (i != j) d[j * n + i] += P.x[k]; } return d; }
bool is_inf_bound(double b) { return fabs(b) >= 1e26; }

std::vector<double> eigs(const std::vector<double>& S, int n) {
  std::vector<double> a = S;
  for (int sweep = 0; sweep < 60; sweep++) {
    double off = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) off += a[i * n + j] * a[i * n + j];
    if (off < 1e-28) break;
    for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
      if (a[p * n + q] == 0) continue;
      double th = (a[q * n + q] - a[p * n + p]) / (2 * a[p * n + q]); double t = (th >= 0 ? 1 : -1) / (fabs(th) + sqrt(th * th + 1)); double c = 1 / sqrt(t * t + 1), s = t * c;
      for (int k = 0; k < n; k++) { double x = a[k * n + p], y = a[k * n + q]; a[k * n + p] = c * x - s * y; a[k * n + q] = s * x + c * y; }
      for (int k = 0; k < n; k++) { double x = a[p * n + k], y = a[q * n + k]; a[p * n + k] = c * x - s * y; a[q * n + k] = s * x + c * y; }
    }
  }
  std::vector<double> e(n); for (int i = 0; i < n; i++) e[i] = a[i * n + i]; std::sort(e.begin(), e.end()); return e;
}
double min_eig(const std::vector<double>& S, int n) { return eigs(S, n)[0]; }
bool solve_dense(std::vector<ld> A, VL b, int n, VL& x) {
  for (int k = 0; k < n; k++) { int p = k; for (int i = k + 1; i < n; i++) if (fabsl(A[i * n + k]) > fabsl(A[p * n + k])) p = i; if (fabsl(A[p * n + k]) < 1e-300L) return false;
    if (p != k) { for (int j = 0; j < n; j++) std::swap(A[k * n + j], A[p * n + j]); std::swap(b[k], b[p]); }
    for (int i = k + 1; i < n; i++) { ld f = A[i * n + k] / A[k * n + k]; if (f == 0) continue; for (int j = k; j < n; j++) A[i * n + j] -= f * A[k * n + j]; b[i] -= f * b[k]; } }
  x.assign(n, 0); for (int i = n - 1; i >= 0; i--) { ld r = b[i]; for (int j = i + 1; j < n; j++) r -= A[i * n + j] * x[j]; x[i] = r / A[i * n + i]; }
  return true;
}

// ---------------- generators ----------------
double gval(Src& s, bool well) {
  int k = s.range(0, 7); double v;
  if (k <= 2) v = s.range(1, 3); else if (k <= 4) v = s.range(1, 8) * 0.25; else if (k <= 6 || well) v = 0.3 + 1.7 * s.unit(); else v = pow(10., -3 + 6 * s.unit());
  return s.chance(1, 2) ? -v : v;
}
double gscale(Src& s) { static const double t[] = {1, 2, 0.5, 10, 0.1, 100, 0.01, 1000, 1e-3}; return t[s.draw(9)]; }
double ginf(Src& s) { switch (s.draw(5)) { case 0: case 1: return OSQP_INFTY; case 2: return std::numeric_limits<double>::infinity(); case 3: return 3e30; default: return OSQP_INFTY * 10; } }

static double coord(Src& s) { int k = s.range(0, 5); if (k == 0) return 0; double v = k <= 3 ? s.range(1, 8) * 0.25 : 2 * s.unit(); return s.chance(1, 2) ? -v : v; }

Csc gen_P(Src& s, int n, bool pd, bool well) {
  std::vector<double> d((size_t)n * n, 0.); std::vector<char> pat((size_t)n * n, 0);
  int style = s.range(0, 5);
  if (style == 0 && !pd) {}                                   // zero
  else if (style <= 2) { for (int i = 0; i < n; i++) { double v = s.chance(1, 4) && !pd ? 0 : fabs(gval(s, well)); d[i * n + i] = v; } }
  else {
    int r = s.range(1, std::max(1, std::min(n, 4)));
    for (int k = 0; k < r; k++) { std::vector<double> b(n, 0.); int nz = s.range(1, std::min(n, style == 5 ? n : 3)); for (int t = 0; t < nz; t++) b[s.draw(n)] = s.chance(1, 3) ? gval(s, well) : s.range(-2, 2) * 0.5;
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d[i * n + j] += b[i] * b[j]; }
    if (style == 4) for (int i = 0; i < n; i++) if (s.chance(1, 2)) d[i * n + i] += fabs(gval(s, well));
  }
  if (pd) { for (int i = 0; i < n; i++) d[i * n + i] += 0.25 * s.range(1, 8); }
  if (s.chance(1, 4)) for (int k = 0, e = s.range(1, n); k < e; k++) { int i = (int)s.draw(n), j = (int)s.draw(n); pat[std::min(i, j) * n + std::max(i, j)] = 1; }  // explicit zeros
  if (s.chance(1, 5)) for (int i = 0; i < n; i++) pat[i * n + i] = 1;
  return csc_from_dense(n, n, d, pat, true);
}
Csc gen_A(Src& s, int m, int n, bool well) {
  std::vector<double> d((size_t)m * n, 0.); std::vector<char> pat((size_t)m * n, 0);
  int style = s.range(0, 3);
  if (style == 0 && m) for (int i = 0; i < m; i++) d[i * n + i % n] = i < n ? 1 : gval(s, well);   // boxes
  else for (int i = 0; i < m; i++) { int nz = style == 3 ? n : s.range(well ? 1 : 0, std::min(n, 4)); for (int t = 0; t < nz; t++) { int j = (int)(style == 3 ? t : s.draw(n)); d[i * n + j] = s.chance(1, 8) && style == 3 ? 0 : gval(s, well); } }
  if (m && s.chance(1, 5)) for (int k = 0, e = s.range(1, 3); k < e; k++) pat[s.draw(m) * n + s.draw(n)] = 1;
  return csc_from_dense(m, n, d, pat, false);
}
static void rescale(Src& s, Prob& p) {     // badly scaled rows, columns and cost; known points follow
  if (!s.chance(1, 3)) return;
  std::vector<double> r(p.m, 1.), cl(p.n, 1.); double c = s.chance(1, 2) ? gscale(s) : 1;
  for (auto& v : r) if (s.chance(1, 2)) v = gscale(s);
  if (s.chance(1, 2)) for (auto& v : cl) if (s.chance(1, 3)) v = gscale(s);
  for (int j = 0; j < p.n; j++) { for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) p.A.x[k] *= r[p.A.i[k]] * cl[j]; for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) p.P.x[k] *= c * cl[p.P.i[k]] * cl[j]; p.q[j] *= c * cl[j]; }
  for (int i = 0; i < p.m; i++) { if (!is_inf_bound(p.l[i])) p.l[i] *= r[i]; if (!is_inf_bound(p.u[i])) p.u[i] *= r[i]; }
  for (int j = 0; j < p.n; j++) { if (p.xs.size()) p.xs[j] /= cl[j]; if (p.x0.size()) p.x0[j] /= cl[j]; }
  for (int i = 0; i < p.m; i++) if (p.ys.size()) p.ys[i] *= c / r[i];
  if (p.kind == K_PINF && p.cert.size()) for (int i = 0; i < p.m; i++) p.cert[i] /= r[i];
  if (p.kind == K_DINF && p.cert.size()) for (int j = 0; j < p.n; j++) p.cert[j] /= cl[j];
  if (p.slack) { ld sl = 1e300L; for (int i = 0; i < p.m; i++) sl = std::min(sl, (ld)r[i]); p.slack *= (double)sl; }
  p.scl = 10;
}
// now and then a larger problem (only where the caller did not ask for small ones)
static void dims(Src& s, const GenOpt& o, Prob& p) { if (o.nmax >= 8 && s.chance(1, 200)) { p.n = s.range(12, 60); p.m = s.range(o.mmin, 80); return; } p.n = s.range(o.nmin, s.chance(1, 6) ? o.nmax : std::max(o.nmin, std::min(o.nmax, 5))); p.m = s.range(o.mmin, s.chance(1, 6) ? o.mmax : std::max(o.mmin, std::min(o.mmax, 6))); }
static double gap(Src& s, bool well) { return well ? 0.25 * s.range(1, 12) : s.chance(1, 5) ? pow(10., -4 + 5 * s.unit()) : 0.25 * s.range(1, 12); }

Prob gen_kkt(Src& s, const GenOpt& o) {
  Prob p; p.kind = K_KKT; dims(s, o, p);
  bool pd = o.pd || s.chance(1, 2);
  p.P = gen_P(s, p.n, pd, o.well); p.A = gen_A(s, p.m, p.n, o.well);
  p.xs.resize(p.n); p.ys.assign(p.m, 0); for (auto& v : p.xs) v = (OSQPFloat)coord(s);
  VL Ax = mulA(p.A, p.xs); p.l.resize(p.m); p.u.resize(p.m); p.strict = true;
  for (int i = 0; i < p.m; i++) {
    double ax = (OSQPFloat)Ax[i]; double yv = o.well ? 0.25 * s.range(1, 8) : fabs(gval(s, false));
    int t = o.eqOnly ? 0 : s.range(0, 6);
    switch (t) {
      case 0: p.l[i] = p.u[i] = ax; p.ys[i] = s.chance(1, 2) ? -yv : yv; if (s.chance(1, 6)) p.ys[i] = 0; break;
      case 1: p.u[i] = ax; p.l[i] = s.chance(1, 2) ? -ginf(s) : ax - gap(s, o.well); p.ys[i] = yv; break;
      case 2: p.l[i] = ax; p.u[i] = s.chance(1, 2) ? ginf(s) : ax + gap(s, o.well); p.ys[i] = -yv; break;
      case 3: p.l[i] = ax - gap(s, o.well); p.u[i] = ax + gap(s, o.well); break;
      case 4: if (s.chance(1, 2)) { p.l[i] = -ginf(s); p.u[i] = ax + gap(s, o.well); } else { p.u[i] = ginf(s); p.l[i] = ax - gap(s, o.well); } break;
      case 5: p.l[i] = -ginf(s); p.u[i] = ginf(s); break;
      default: if (o.well) { p.l[i] = ax - gap(s, true); p.u[i] = ax + gap(s, true); } else { p.l[i] = ax; p.u[i] = s.chance(1, 2) ? ginf(s) : ax + gap(s, false); p.strict = false; } // weakly active
    }
  }
  VL g = mulP(p.P, p.xs), a = mulAt(p.A, p.ys); p.q.resize(p.n); for (int j = 0; j < p.n; j++) p.q[j] = (OSQPFloat)(-(g[j] + a[j]));
  p.hasOpt = true; p.uniqX = pd;
  if (o.scaleRows) rescale(s, p);
  return p;
}
Prob gen_feas(Src& s, const GenOpt& o) {   // feasible with slack, bounded below (P positive definite or cost in the range)
  Prob p; p.kind = K_FEAS; dims(s, o, p);
  bool pd = o.pd || s.chance(1, 2);
  p.P = gen_P(s, p.n, pd, o.well); p.A = gen_A(s, p.m, p.n, o.well);
  p.x0.resize(p.n); for (auto& v : p.x0) v = (OSQPFloat)coord(s);
  VL Ax = mulA(p.A, p.x0); p.l.resize(p.m); p.u.resize(p.m); double sl = 1e9;
  for (int i = 0; i < p.m; i++) { double ax = (OSQPFloat)Ax[i], g1 = gap(s, o.well), g2 = gap(s, o.well);
    switch (s.range(0, 3)) { case 0: p.l[i] = ax - g1; p.u[i] = ax + g2; sl = std::min(sl, std::min(g1, g2)); break; case 1: p.l[i] = -ginf(s); p.u[i] = ax + g2; sl = std::min(sl, g2); break; case 2: p.l[i] = ax - g1; p.u[i] = ginf(s); sl = std::min(sl, g1); break; default: p.l[i] = -ginf(s); p.u[i] = ginf(s); } }
  p.slack = sl; p.q.resize(p.n);
  if (pd) for (auto& v : p.q) v = (OSQPFloat)coord(s);
  else { VL w(p.n), y(p.m); for (auto& v : w) v = coord(s); for (int i = 0; i < p.m; i++) { bool lo = is_inf_bound(p.l[i]), hi = is_inf_bound(p.u[i]); double v = fabs(coord(s)); y[i] = lo && hi ? 0 : hi ? -v : lo ? v : (s.chance(1, 2) ? v : -v); }
    VL g = mulP(p.P, w), a = mulAt(p.A, y); for (int j = 0; j < p.n; j++) p.q[j] = (OSQPFloat)(-(g[j] + a[j])); }
  if (o.scaleRows) rescale(s, p);
  return p;
}
Prob gen_lp(Src& s, const GenOpt& o) {    // vertex optimum of a linear program, unique and nondegenerate
  Prob p; p.kind = K_LP; p.n = s.range(std::max(1, o.nmin), std::min(o.nmax, 6)); int extra = s.range(0, std::max(0, std::min(o.mmax - p.n, 4))); p.m = p.n + extra;
  std::vector<double> d((size_t)p.m * p.n, 0.); std::vector<char> pat(d.size(), 0);
  for (int i = 0; i < p.n; i++) { d[i * p.n + i] = s.chance(1, 2) ? 1 : gval(s, true); if (s.chance(1, 2) && i + 1 < p.n) d[i * p.n + i + 1 + s.draw(p.n - i - 1)] = 0.25 * s.range(-4, 4); }
  for (int i = p.n; i < p.m; i++) for (int t = 0; t < 2; t++) d[i * p.n + s.draw(p.n)] = gval(s, true);
  p.A = csc_from_dense(p.m, p.n, d, pat, false); std::vector<double> z((size_t)p.n * p.n, 0.); std::vector<char> zp(z.size(), 0); if (s.chance(1, 4)) for (int i = 0; i < p.n; i++) zp[i * p.n + i] = 1; p.P = csc_from_dense(p.n, p.n, z, zp, true);
  p.xs.resize(p.n); for (auto& v : p.xs) v = (OSQPFloat)coord(s); VL Ax = mulA(p.A, p.xs); p.ys.assign(p.m, 0); p.l.resize(p.m); p.u.resize(p.m);
  for (int i = 0; i < p.m; i++) { double ax = (OSQPFloat)Ax[i]; double y = 0.25 * s.range(1, 8);
    if (i < p.n) switch (s.range(0, 2)) { case 0: p.l[i] = ax; p.u[i] = s.chance(1, 2) ? ginf(s) : ax + gap(s, true); p.ys[i] = -y; break; case 1: p.u[i] = ax; p.l[i] = s.chance(1, 2) ? -ginf(s) : ax - gap(s, true); p.ys[i] = y; break; default: p.l[i] = p.u[i] = ax; p.ys[i] = s.chance(1, 2) ? y : -y; }
    else { p.l[i] = s.chance(1, 2) ? -ginf(s) : ax - gap(s, true); p.u[i] = ax + gap(s, true); } }
  VL a = mulAt(p.A, p.ys); p.q.resize(p.n); for (int j = 0; j < p.n; j++) p.q[j] = (OSQPFloat)(-a[j]);
  p.hasOpt = p.uniqX = p.uniqY = p.strict = true; return p;
}
Prob gen_pinf(Src& s, const GenOpt& o) {
  GenOpt o2 = o; o2.scaleRows = false; o2.mmin = std::max(2, o.mmin); o2.mmax = std::max(2, o.mmax); Prob p = gen_feas(s, o2); p.kind = K_PINF; p.x0.clear(); p.slack = 0;
  int n = p.n, m = p.m; std::vector<double> d = dense(p.A); std::vector<char> pat((size_t)m * n, 0);
  // certificate v on k rows; the last of them is set so that A'v = 0
  int k = s.range(2, std::min(m, 4)); std::vector<int> rows; for (int i = 0; i < m; i++) rows.push_back(i); for (int i = 0; i < k; i++) std::swap(rows[i], rows[i + s.draw(m - i)]);
  VL v(m, 0); for (int t = 0; t < k - 1; t++) { v[rows[t]] = 0.5 * s.range(1, 4) * (s.chance(1, 2) ? -1 : 1); bool any = false; for (int j = 0; j < n; j++) any |= d[rows[t] * n + j] != 0; if (!any || o.well) { for (int j = 0; j < n; j++) d[rows[t] * n + j] = 0; d[rows[t] * n + s.draw(n)] = 0.5 * s.range(1, 4); } else for (int j = 0; j < n; j++) d[rows[t] * n + j] = 0.25 * round(4 * d[rows[t] * n + j]); }
  int lr = rows[k - 1]; double lv = s.chance(1, 2) ? -1 : 1; v[lr] = lv; bool zero = true;
  for (int j = 0; j < n; j++) { double t = 0; for (int a = 0; a < k - 1; a++) t += (double)v[rows[a]] * d[rows[a] * n + j]; d[lr * n + j] = -t / lv; zero &= d[lr * n + j] == 0; }
  (void)zero;
  p.margin = o.well ? 0.5 * s.range(1, 6) : gap(s, false);
  // bounds: for v>0 the upper bound matters, for v<0 the lower; sum must be -margin
  double acc = 0; for (int t = 0; t < k; t++) { int i = rows[t]; double b; if (t < k - 1) { b = 0.5 * s.range(-4, 4); acc += (double)v[i] * b; } else b = (-p.margin - acc) / lv;
    double other = s.chance(1, 2) ? ginf(s) : gap(s, o.well);
    if (v[i] > 0) { p.u[i] = (OSQPFloat)b; p.l[i] = is_inf_bound(other) ? -other : (OSQPFloat)(b - other); } else { p.l[i] = (OSQPFloat)b; p.u[i] = is_inf_bound(other) ? other : (OSQPFloat)(b + other); } if (s.chance(1, 6)) p.l[i] = p.u[i] = (OSQPFloat)b; }
  p.A = csc_from_dense(m, n, d, pat, false); p.cert = v;
  if (o.scaleRows) rescale(s, p);
  return p;
}
Prob gen_dinf(Src& s, const GenOpt& o) {
  GenOpt o2 = o; o2.scaleRows = false; Prob p = gen_feas(s, o2); p.kind = K_DINF; p.slack = 0; int n = p.n, m = p.m;
  // direction: one variable, or two variables moving together; the cost ignores it
  int a = (int)s.draw(n), b = n > 1 && s.chance(1, 2) ? (int)s.draw(n) : a; VL dir(n, 0); dir[a] = s.chance(1, 2) ? -1 : 1; if (b != a) dir[b] = s.chance(1, 2) ? -1 : 1;
  std::vector<double> S = denseSym(p.P); std::vector<char> pat((size_t)n * n, 0);
  if (b == a) { for (int i = 0; i < n; i++) S[i * n + a] = S[a * n + i] = 0; }
  else { for (int i = 0; i < n; i++) S[i * n + a] = S[a * n + i] = 0; double f = (double)(-dir[b] * dir[a]);   // x_a enters the cost as f*x_b did: zero curvature along dir
    double bb = S[b * n + b]; for (int i = 0; i < n; i++) if (i != a && i != b) { S[i * n + a] = S[a * n + i] = f * S[i * n + b]; } S[a * n + a] = bb; S[a * n + b] = S[b * n + a] = f * bb; }
  if (s.chance(1, 4)) for (int i = 0; i < n; i++) pat[i * n + i] = 1;
  p.P = csc_from_dense(n, n, S, pat, true);
  VL Ad = mulA(p.A, dir); for (int i = 0; i < m; i++) { if (Ad[i] > 1e-12L) p.u[i] = ginf(s); else if (Ad[i] < -1e-12L) p.l[i] = -ginf(s); }
  p.margin = o.well ? 0.5 * s.range(1, 6) : gap(s, false); double qd = 0; for (int j = 0; j < n; j++) qd += p.q[j] * (double)dir[j];
  // shift q along dir so that q'dir = -margin
  double nn = (double)dot(dir, dir); for (int j = 0; j < n; j++) p.q[j] += (OSQPFloat)((-p.margin - qd) / nn * (double)dir[j]);
  p.cert = dir; if (o.scaleRows) rescale(s, p);
  return p;
}
Prob gen_any(Src& s, const GenOpt& o) {
  switch (s.range(0, 9)) { case 0: case 1: case 2: case 3: return gen_kkt(s, o); case 4: case 5: return gen_feas(s, o); case 6: return gen_lp(s, o); case 7: return gen_pinf(s, o); case 8: return gen_dinf(s, o);
    default: { Prob p = gen_feas(s, o); p.kind = K_ANY; p.slack = 0; p.x0.clear(); for (auto& v : p.q) v = (OSQPFloat)coord(s); for (int i = 0; i < p.m; i++) if (s.chance(1, 2)) { double c = coord(s) * 2; if (p.l[i] > c) p.l[i] = (OSQPFloat)c; else if (s.chance(1, 2)) { p.u[i] = std::max(p.l[i], (OSQPFloat)c); } } return p; } }
}
static std::string vs(const V& v) { std::string r; char b[40]; for (auto x : v) { snprintf(b, sizeof b, "%.17g ", (double)x); r += b; if (r.size() > 3000) break; } return r; }
void log_prob(Ctx& c, const Prob& p) {
  if (!c.want_desc) return;
  static const char* kn[] = {"kkt", "feasible", "primal-infeasible", "dual-infeasible", "lp", "any"};
  c.log("problem n=%d m=%d kind=%s", p.n, p.m, kn[p.kind]);
  auto mat = [&](const char* nm, const Csc& M) { std::string r; char b[64]; for (int j = 0; j < M.n; j++) for (OSQPInt k = M.p[j]; k < M.p[j + 1]; k++) { snprintf(b, sizeof b, "(%d,%d)=%.17g ", (int)M.i[k], j, (double)M.x[k]); r += b; } c.log(" %s: %s", nm, r.substr(0, 3500).c_str()); };
  mat("P(upper)", p.P); mat("A", p.A); c.log(" q: %s", vs(p.q).c_str()); c.log(" l: %s", vs(p.l).c_str()); c.log(" u: %s", vs(p.u).c_str());
}

// ---------------- settings ----------------
OSQPSettings defaults() { OSQPSettings st; memset(&st, 0, sizeof st); osqp_set_default_settings(&st); st.verbose = 0; return st; }
OSQPSettings gen_settings(Src& s, const SetOpt& o) {
  OSQPSettings t = defaults();
  if (!s.chance(3, 4)) { if (o.linsys && s.chance(1, 4) && (osqp_capabilities() & OSQP_CAPABILITY_INDIRECT_SOLVER)) t.linsys_solver = OSQP_INDIRECT_SOLVER; return t; }
  if (o.linsys && s.chance(1, 3) && (osqp_capabilities() & OSQP_CAPABILITY_INDIRECT_SOLVER)) t.linsys_solver = OSQP_INDIRECT_SOLVER;
  if (s.chance(1, 3)) t.warm_starting = 0;
  if (s.chance(1, 2)) { static const int k[] = {0, 1, 2, 5, 20, 50}; t.scaling = k[s.draw(6)]; if (s.chance(1, 6)) t.scaling = s.range(3, 30); }
  if (o.polish && s.chance(1, 3)) t.polishing = 1;
  if (s.chance(1, 3)) { static const double k[] = {1, 0.01, 10, 1e-3, 100, 1e-5, 1e5, 1e-8, 1e9}; t.rho = (OSQPFloat)k[s.draw(o.wild ? 9 : 5)]; if (o.wild && s.chance(1, 5)) t.rho = (OSQPFloat)pow(10., -5.5 + 11 * s.unit()); }
  if (s.chance(1, 3)) t.rho_is_vec = 0;
  if (s.chance(1, 4)) { static const double k[] = {1e-4, 1e-2, 1e-8, 1.0}; t.sigma = (OSQPFloat)k[s.draw(o.wild ? 4 : 2)]; }
  if (s.chance(1, 3)) { static const double k[] = {1.0, 0.5, 1.8, 1.2, 0.1, 1.95}; t.alpha = (OSQPFloat)k[s.draw(o.wild ? 6 : 4)]; if (o.wild && s.chance(1, 5)) t.alpha = (OSQPFloat)(0.05 + 1.9 * s.unit()); }
  if (s.chance(1, 4)) { t.cg_max_iter = s.range(1, 50); t.cg_tol_reduction = s.range(1, 20); t.cg_tol_fraction = (OSQPFloat)(0.01 + 0.9 * s.unit()); }
  if (s.chance(1, 4)) t.cg_precond = OSQP_NO_PRECONDITIONER;
  if (s.chance(1, 2)) { t.adaptive_rho = s.range(0, 3); static const int k[] = {50, 0, 1, 10, 25, 7}; t.adaptive_rho_interval = k[s.draw(6)]; if (s.chance(1, 6)) t.adaptive_rho_interval = s.range(2, 120); if (s.chance(1, 2)) { static const double f[] = {0.4, 0.9, 0.1, 2.0}; t.adaptive_rho_fraction = (OSQPFloat)f[s.draw(4)]; } if (s.chance(1, 2)) { static const double f[] = {5, 2, 1, 20}; t.adaptive_rho_tolerance = (OSQPFloat)f[s.draw(4)]; } }
  if (o.tol && s.chance(1, 2)) { static const double k[] = {1e-3, 1e-4, 1e-6, 1e-2, 0.1, 0}; t.eps_abs = (OSQPFloat)k[s.draw(6)]; t.eps_rel = (OSQPFloat)k[s.draw(6)]; if (t.eps_abs == 0 && t.eps_rel == 0) t.eps_abs = (OSQPFloat)1e-3; }
  if (o.tol && s.chance(1, 3)) { static const double k[] = {1e-4, 1e-6, 1e-2, 1e-3}; t.eps_prim_inf = (OSQPFloat)k[s.draw(4)]; t.eps_dual_inf = (OSQPFloat)k[s.draw(4)]; }
  if (o.scaledTerm && s.chance(1, 5)) t.scaled_termination = 1;
  if (s.chance(1, 3)) { static const int k[] = {25, 1, 5, 0, 10, 3, 100}; t.check_termination = k[s.draw(7)]; if (s.chance(1, 6)) t.check_termination = s.range(2, 130); }
  if (s.chance(1, 3)) t.check_dualgap = 0;
  if (o.limits && s.chance(1, 3)) t.max_iter = s.chance(1, 2) ? s.range(1, 60) : s.range(60, 1500);
  if (s.chance(1, 4)) { static const double k[] = {1e-6, 1e-8, 1e-4}; t.delta = (OSQPFloat)k[s.draw(3)]; t.polish_refine_iter = s.range(0, 6); if (s.chance(1, 8)) t.polish_refine_iter = s.range(7, 20); }
  return t;
}
void log_settings(Ctx& c, const OSQPSettings& t) {
  c.log("settings linsys=%d warm=%d scaling=%d polishing=%d rho=%g rho_is_vec=%d sigma=%g alpha=%g cg=(%d,%d,%g,%d) adaptive=(%d,%d,%g,%g) max_iter=%d eps=(%g,%g,%g,%g) scaled_term=%d check=%d dualgap=%d time=%g delta=%g refine=%d verbose=%d alloc=%d",
        (int)t.linsys_solver, (int)t.warm_starting, (int)t.scaling, (int)t.polishing, (double)t.rho, (int)t.rho_is_vec, (double)t.sigma, (double)t.alpha, (int)t.cg_max_iter, (int)t.cg_tol_reduction, (double)t.cg_tol_fraction, (int)t.cg_precond,
        (int)t.adaptive_rho, (int)t.adaptive_rho_interval, (double)t.adaptive_rho_fraction, (double)t.adaptive_rho_tolerance, (int)t.max_iter, (double)t.eps_abs, (double)t.eps_rel, (double)t.eps_prim_inf, (double)t.eps_dual_inf, (int)t.scaled_termination, (int)t.check_termination, (int)t.check_dualgap, (double)t.time_limit, (double)t.delta, (int)t.polish_refine_iter, (int)t.verbose, (int)t.allocate_solution);
}

// ---------------- API wrapper ----------------
bool st_solved(int s) { return s == OSQP_SOLVED || s == OSQP_SOLVED_INACCURATE; }
bool st_pinf(int s) { return s == OSQP_PRIMAL_INFEASIBLE || s == OSQP_PRIMAL_INFEASIBLE_INACCURATE; }
bool st_dinf(int s) { return s == OSQP_DUAL_INFEASIBLE || s == OSQP_DUAL_INFEASIBLE_INACCURATE; }
bool st_hassol(int s) { return !st_pinf(s) && !st_dinf(s) && s != OSQP_NON_CVX; }
const char* st_name(int s) { static const char* t[] = {"", "solved", "solved inaccurate", "primal infeasible", "primal infeasible inaccurate", "dual infeasible", "dual infeasible inaccurate", "maximum iterations reached", "run time limit reached", "problem non convex", "interrupted", "unsolved"}; return s >= 1 && s <= 11 ? t[s] : "?"; }

int Osqp::setup(const Prob& p, const OSQPSettings& st) {
  cleanup(); n = p.n; m = p.m; OSQPCscMatrix P = p.P.view(), A = p.A.view();
  setup_flag = (int)osqp_setup(&s, &P, p.q.data(), &A, p.l.data(), p.u.data(), p.m, p.n, &st);
  return setup_flag;
}
Result Osqp::get() {
  Result r; memcpy(&r.info, s->info, sizeof(OSQPInfo));
  r.x.resize(n); r.y.resize(m); r.pc.resize(m); r.dc.resize(n); r.hasSol = true;
  if (s->solution) { memcpy(r.x.data(), s->solution->x, n * sizeof(OSQPFloat)); memcpy(r.dc.data(), s->solution->dual_inf_cert, n * sizeof(OSQPFloat)); if (m) { memcpy(r.y.data(), s->solution->y, m * sizeof(OSQPFloat)); memcpy(r.pc.data(), s->solution->prim_inf_cert, m * sizeof(OSQPFloat)); } }
  else { V d(1); OSQPSolution so; so.x = r.x.data(); so.y = m ? r.y.data() : d.data(); so.prim_inf_cert = m ? r.pc.data() : d.data(); so.dual_inf_cert = r.dc.data(); osqp_get_solution(s, &so); }
  return r;
}
Result Osqp::run() { int f = solve(); Result r = get(); r.flag = f; return r; }

Resid residuals(const Prob& p, const V& xv, const V& yv) {
  Resid r; VL x = toL(xv), y = toL(yv), q = toL(p.q); VL Px = mulP(p.P, x), Aty = mulAt(p.A, y); r.Ax = mulA(p.A, x);
  r.pdist = 0; r.sup = 0;
  for (int i = 0; i < p.m; i++) { ld d = 0; bool li = is_inf_bound(p.l[i]), ui = is_inf_bound(p.u[i]); if (!li && r.Ax[i] < p.l[i]) d = p.l[i] - r.Ax[i]; if (!ui && r.Ax[i] > p.u[i]) d = std::max(d, r.Ax[i] - (ld)p.u[i]); if (std::isnan((double)r.Ax[i])) d = r.Ax[i]; if (!(d <= r.pdist)) r.pdist = d;
    if (y[i] > 0 && !ui) r.sup += y[i] * p.u[i]; if (y[i] < 0 && !li) r.sup += y[i] * p.l[i]; }
  VL dr(p.n); for (int j = 0; j < p.n; j++) dr[j] = Px[j] + q[j] + Aty[j];
  r.dres = ninf(dr); r.xPx = dot(x, Px); r.qx = dot(q, x); r.pobj = r.xPx / 2 + r.qx; r.dobj = -r.xPx / 2 - r.sup; r.gap = r.xPx + r.qx + r.sup;
  r.nAx = ninf(r.Ax); r.nAty = ninf(Aty); r.nPx = ninf(Px); r.nq = ninf(q);
  VL a1(p.m, 0), a2(p.n, 0), a3(p.n, 0);
  for (int j = 0; j < p.n; j++) { for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) { OSQPInt i = p.A.i[k]; a1[i] += fabsl((ld)p.A.x[k] * x[j]); a2[j] += fabsl((ld)p.A.x[k] * y[i]); } for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) { OSQPInt i = p.P.i[k]; a3[j] += fabsl((ld)p.P.x[k] * x[i]); if (i != j) a3[i] += fabsl((ld)p.P.x[k] * x[j]); } }
  r.aAx = ninf(a1); r.aAty = ninf(a2); r.aPx = ninf(a3); return r;
}

void scaling_ref(const Prob& p, int iters, VL& D, VL& E, ld& c, bool& edge, bool triu) {
  const ld mn = 1e-4L, mx = 1e4L; D.assign(p.n, 1); E.assign(p.m, 1); c = 1; edge = false;
  auto lim = [&](ld v) { if (v > 0 && fabsl(v / mn - 1) < (sizeof(OSQPFloat) == 8 ? 1e-9L : 1e-3L)) edge = true; return v < mn ? (ld)1 : std::min(v, mx); };
  std::vector<ld> Ax(p.A.x.begin(), p.A.x.end()), Px(p.P.x.begin(), p.P.x.end()); VL q = toL(p.q);
  for (int t = 0; t < iters; t++) {
    VL d(p.n, 0), e(p.m, 0);
    for (int j = 0; j < p.n; j++) { for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) { OSQPInt i = p.P.i[k]; ld a = fabsl(Px[k]); d[j] = std::max(d[j], a); if (!triu) d[i] = std::max(d[i], a); } for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) { OSQPInt i = p.A.i[k]; ld a = fabsl(Ax[k]); d[j] = std::max(d[j], a); e[i] = std::max(e[i], a); } }
    for (auto& v : d) v = 1 / sqrtl(lim(v)); for (auto& v : e) v = 1 / sqrtl(lim(v));
    VL pn(p.n, 0);
    for (int j = 0; j < p.n; j++) { for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) { OSQPInt i = p.P.i[k]; Px[k] *= d[i] * d[j]; ld a = fabsl(Px[k]); pn[j] = std::max(pn[j], a); if (!triu) pn[i] = std::max(pn[i], a); } for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) Ax[k] *= e[p.A.i[k]] * d[j]; q[j] *= d[j]; D[j] *= d[j]; }
    for (int i = 0; i < p.m; i++) E[i] *= e[i];
    ld cm = 0; for (auto v : pn) cm += v; cm /= p.n; ld nq = lim(ninf(q)); ld ct = 1 / lim(std::max(cm, nq));
    for (auto& v : Px) v *= ct; for (auto& v : q) v *= ct; c *= ct;
  }
}
bool scaling_edge(const Prob& p, int iters) { VL D, E; ld c; bool a, b; scaling_ref(p, iters, D, E, c, a, true); scaling_ref(p, iters, D, E, c, b, false); return a || b; }
