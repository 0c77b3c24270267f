// C23: vector and matrix operations against their definitions, in long double.
#include "hist.hpp"
extern "C" {
#include "glob_opts.h"
#include "algebra_vector.h"
#include "algebra_matrix.h"
}
namespace {
const double EPS = sizeof(OSQPFloat) == 8 ? 2.3e-16 : 1.2e-7, BIG = sizeof(OSQPFloat) == 8 ? 1e100 : 1e12;
const OSQPFloat INF = std::numeric_limits<OSQPFloat>::infinity(), NAN_ = std::numeric_limits<OSQPFloat>::quiet_NaN();
int glen(Src& s) { switch (s.range(0, 9)) { case 0: return 0; case 1: return 1; case 9: return s.range(20, 200); default: return s.range(2, 19); } }
OSQPFloat gnum(Src& s) { switch (s.range(0, 9)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (OSQPFloat)(s.range(0, 1) ? -0.5 : 2); case 4: return (OSQPFloat)((2 * s.unit() - 1) * pow(10, s.range(-12, 12))); default: return (OSQPFloat)(2 * s.unit() - 1); } }
OSQPFloat gscal(Src& s) { switch (s.range(0, 6)) { case 0: return 1; case 1: return 0; case 2: return -1; case 3: return (OSQPFloat)0.5; default: return gnum(s); } }
V gvec(Src& s, int n) { V v(n); bool z = s.chance(1, 12); for (auto& e : v) e = z ? 0 : gnum(s); return v; }
bool same(OSQPFloat a, OSQPFloat b) { return a == b || (a != a && b != b); }
// a library vector that is a window into a larger one, whose surroundings must stay as they are
struct Vec {
  OSQPVectorf* whole; OSQPVectorf* w; int n, h, t; V img;
  Vec(Src& s, const V& v) : n((int)v.size()) { h = s.range(0, 3); t = s.range(0, 3); if (h + t + n == 0) t = 1; img.assign(h + n + t, 0); for (int i = 0; i < h + n + t; i++) img[i] = (OSQPFloat)(1000 + i); for (int i = 0; i < n; i++) img[h + i] = v[i]; whole = OSQPVectorf_new(img.data(), h + n + t); w = OSQPVectorf_view(whole, h, n); }
  Vec(const Vec&) = delete;
  ~Vec() { OSQPVectorf_view_free(w); OSQPVectorf_free(whole); }
  V get() const { const OSQPFloat* d = OSQPVectorf_data(whole); return V(d + h, d + h + n); }
  bool around() const { const OSQPFloat* d = OSQPVectorf_data(whole); for (int i = 0; i < h; i++) if (d[i] != img[i]) return false; for (int i = 0; i < t; i++) if (d[h + n + i] != img[h + n + i]) return false; return true; }
  V orig() const { return V(img.begin() + h, img.begin() + h + n); }
  bool kept() const { V g = get(), o = orig(); for (int i = 0; i < n; i++) if (!same(g[i], o[i])) return false; return around(); }
};
std::string str(const V& v) { std::string r; char b[40]; for (size_t i = 0; i < v.size() && i < 24; i++) { snprintf(b, sizeof b, "%s%.17g", i ? " " : "", (double)v[i]); r += b; } return r; }
bool nearly(OSQPFloat got, ld want, ld mag) { if (got != got) return false; return fabsl((ld)got - want) <= 6 * EPS * mag + (sizeof(OSQPFloat) == 8 ? 1e-290L : 1e-34L); }
}
#define ELEM(expr, magn) for (int i = 0; i < n; i++) { ld want = (expr), mag = (magn); CHECK(c, nearly(r[i], want, mag), std::string("vector:") + op, "%s: element %d of %d is %.17g, should be %.17Lg", op, i, n, (double)r[i], want); }
PROPERTY(C23, elementwise, 3, "a vector of at least two elements, other than all zero") {
  int n = glen(s); V a = gvec(s, n), b = gvec(s, n), d = gvec(s, n); OSQPFloat sa = gscal(s), sb = gscal(s), sc = gscal(s); const char* op = ""; int which = s.range(0, 18), alias = s.range(0, 5);
  c.log("op %d alias %d n %d\na = %s\nb = %s\nd = %s\nscalars %.17g %.17g %.17g", which, alias, n, str(a).c_str(), str(b).c_str(), str(d).c_str(), (double)sa, (double)sb, (double)sc);
  Vec A(s, a), B(s, b), D(s, d), X(s, gvec(s, n)); // alias: which argument the output is
  Vec* o = alias == 1 ? &A : alias == 2 ? &B : alias == 3 ? &D : &X; auto in2 = [&] { if (alias == 3) o = &X; }; auto in1 = [&] { if (alias >= 2) o = &X; }; bool inplaceA = false; V r;
  switch (which) {
    case 0: op = "plus"; in2(); OSQPVectorf_plus(o->w, A.w, B.w); r = o->get(); ELEM((ld)a[i] + b[i], fabsl((ld)a[i] + b[i])) break;
    case 1: op = "minus"; in2(); OSQPVectorf_minus(o->w, A.w, B.w); r = o->get(); ELEM((ld)a[i] - b[i], fabsl((ld)a[i] - b[i])) break;
    case 2: op = "add_scaled"; in2(); if (alias == 1 && s.chance(1, 2)) sa = 1; OSQPVectorf_add_scaled(o->w, sa, A.w, sb, B.w); r = o->get(); ELEM((ld)sa * a[i] + (ld)sb * b[i], fabsl((ld)sa * a[i]) + fabsl((ld)sb * b[i])) break;
    case 3: op = "add_scaled3"; if (alias == 1 && s.chance(1, 2)) sa = 1; OSQPVectorf_add_scaled3(o->w, sa, A.w, sb, B.w, sc, D.w); r = o->get(); ELEM((ld)sa * a[i] + (ld)sb * b[i] + (ld)sc * d[i], fabsl((ld)sa * a[i]) + fabsl((ld)sb * b[i]) + fabsl((ld)sc * d[i])) break;
    case 4: op = "ew_prod"; in2(); OSQPVectorf_ew_prod(o->w, A.w, B.w); r = o->get(); ELEM((ld)a[i] * b[i], fabsl((ld)a[i] * b[i])) break;
    case 5: op = "mult_scalar"; o = &A; OSQPVectorf_mult_scalar(A.w, sa); r = o->get(); ELEM((ld)sa * a[i], fabsl((ld)sa * a[i])) break;
    case 6: op = "set_scalar"; o = &A; OSQPVectorf_set_scalar(A.w, sa); r = o->get(); ELEM(sa, 0) break;
    case 7: op = "copy"; o = &X; OSQPVectorf_copy(o->w, A.w); r = o->get(); ELEM(a[i], 0) break;
    case 8: op = "ew_reciprocal"; in1(); for (int i = 0; i < n; i++) if (fabs((double)a[i]) < 1e-30) { a[i] = 2; OSQPVectorf_data(A.w)[i] = 2; A.img[A.h + i] = 2; } OSQPVectorf_ew_reciprocal(o->w, A.w); r = o->get(); ELEM(1 / (ld)a[i], fabsl(1 / (ld)a[i])) break;
    case 9: op = "ew_sqrt"; o = &A; for (int i = 0; i < n; i++) { a[i] = (OSQPFloat)fabs((double)a[i]); OSQPVectorf_data(A.w)[i] = a[i]; A.img[A.h + i] = a[i]; } OSQPVectorf_ew_sqrt(A.w); r = o->get(); ELEM(sqrtl((ld)a[i]), sqrtl((ld)a[i])) break;
    case 10: op = "ew_max_vec"; in2(); OSQPVectorf_ew_max_vec(o->w, A.w, B.w); r = o->get(); ELEM(std::max(a[i], b[i]), 0) break;
    case 11: op = "ew_min_vec"; in2(); OSQPVectorf_ew_min_vec(o->w, A.w, B.w); r = o->get(); ELEM(std::min(a[i], b[i]), 0) break;
    case 12: op = "set_scalar_if_lt"; in1(); OSQPVectorf_set_scalar_if_lt(o->w, A.w, n && s.chance(1, 3) ? (sb = a[s.range(0, n - 1)]) : sb, sc); r = o->get(); ELEM(a[i] < sb ? sc : a[i], 0) break;
    case 13: op = "set_scalar_if_gt"; in1(); OSQPVectorf_set_scalar_if_gt(o->w, A.w, n && s.chance(1, 3) ? (sb = a[s.range(0, n - 1)]) : sb, sc); r = o->get(); ELEM(a[i] > sb ? sc : a[i], 0) break;
    case 14: { op = "set_scalar_conditional"; o = &A; VI t(n); for (auto& e : t) e = s.range(0, 4) - 2; OSQPVectori* T = OSQPVectori_new(t.data(), n); OSQPVectorf_set_scalar_conditional(A.w, T, sa, sb, sc); VI t2(n + 1); OSQPVectori_to_raw(t2.data(), T); OSQPVectori_free(T); t2.resize(n); CHECK(c, t == t2, "vector:input", "the tests were changed"); r = o->get(); ELEM(t[i] < 0 ? sa : t[i] > 0 ? sc : sb, 0) break; }
    case 15: { op = "round_to_zero"; o = &A; OSQPFloat tol = (OSQPFloat)fabs((double)sa); if (n && s.chance(1, 3)) tol = (OSQPFloat)fabs((double)a[s.range(0, n - 1)]); OSQPVectorf_round_to_zero(A.w, tol); r = o->get(); ELEM(fabsl((ld)a[i]) < tol ? 0 : a[i], 0) break; }
    case 16: { op = "from_raw"; o = &X; OSQPVectorf_from_raw(X.w, a.data()); r = X.get(); ELEM(a[i], 0) V raw(n + 1, 77); OSQPVectorf_to_raw(raw.data(), X.w); for (int i = 0; i < n; i++) CHECK(c, raw[i] == a[i], "vector:to_raw", "element %d", i); CHECK(c, raw[n] == 77, "vector:to_raw", "wrote behind the array"); break; }
    case 17: { op = "copy_new"; o = &X; OSQPVectorf* N = OSQPVectorf_copy_new(A.w); CHECK(c, N && OSQPVectorf_length(N) == n, "vector:copy_new", "length"); r.assign(OSQPVectorf_data(N), OSQPVectorf_data(N) + n); if (n) OSQPVectorf_data(N)[0] = 123; OSQPVectorf_free(N); ELEM(a[i], 0) N = OSQPVectorf_calloc(n); r.assign(OSQPVectorf_data(N), OSQPVectorf_data(N) + n); OSQPVectorf_free(N); op = "calloc"; ELEM(0, 0) break; }
    case 18: { op = "view"; o = &X; int h = s.range(0, n), l = s.range(0, n - h); OSQPVectorf* W = OSQPVectorf_view(A.w, h, l); CHECK(c, W && OSQPVectorf_length(W) == l && OSQPVectorf_data(W) == OSQPVectorf_data(A.w) + h, "vector:view", "wrong window"); OSQPVectorf_view_update(W, B.w, h, l); CHECK(c, OSQPVectorf_length(W) == l && OSQPVectorf_data(W) == OSQPVectorf_data(B.w) + h, "vector:view_update", "wrong window"); OSQPVectorf_view_free(W); break; }
  }
  (void)inplaceA; for (Vec* p : {&A, &B, &D, &X}) CHECK(c, p == o ? p->around() : p->kept(), std::string("vector:") + (p == o ? "outside" : "input"), "%s changed %s", op, p == o ? "what is around its output" : p == &X ? "a vector it was not given" : "an input");
  bool nz = false; for (auto v : a) if (v != 0) nz = true; if (n > 1 && nz) c.nontrivial(); c.label(op);
}
PROPERTY(C23, reductions, 2, "a vector of at least two elements, other than all zero") {
  int n = glen(s); V a = gvec(s, n), b = gvec(s, n); c.log("n %d\na = %s\nb = %s", n, str(a).c_str(), str(b).c_str()); Vec A(s, a), B(s, b);
  ld m = 0, md = 0, ms = 0, s1 = 0, dt = 0, ad = 0, dp = 0, dn = 0; for (int i = 0; i < n; i++) { m = std::max(m, fabsl((ld)a[i])); md = std::max(md, fabsl((ld)a[i] - b[i])); ms = std::max(ms, fabsl((ld)a[i] * b[i])); s1 += fabsl((ld)a[i]); ld t = (ld)a[i] * b[i]; dt += t; ad += fabsl(t); if (b[i] > 0) dp += t; if (b[i] < 0) dn += t; }
  auto ck = [&](const char* nm, OSQPFloat got, ld want, ld mag) { CHECK(c, nearly(got, want, mag), std::string("vector:") + nm, "%s of %d elements is %.17g, should be %.17Lg", nm, n, (double)got, want); };
  ck("norm_inf", OSQPVectorf_norm_inf(A.w), m, 0); ck("norm_inf_diff", OSQPVectorf_norm_inf_diff(A.w, B.w), md, md); ck("scaled_norm_inf", OSQPVectorf_scaled_norm_inf(A.w, B.w), ms, ms); ck("norm_1", OSQPVectorf_norm_1(A.w), s1, (n + 2) * s1); ck("dot", OSQPVectorf_dot_prod(A.w, B.w), dt, (n + 2) * ad); ck("dot", OSQPVectorf_dot_prod(A.w, A.w) >= 0, 1, 0);
  ck("dot_signed+", OSQPVectorf_dot_prod_signed(A.w, B.w, 1), dp, (n + 2) * ad); ck("dot_signed-", OSQPVectorf_dot_prod_signed(A.w, B.w, -1), dn, (n + 2) * ad); ck("dot_signed0", OSQPVectorf_dot_prod_signed(A.w, B.w, 0), dt, (n + 2) * ad);
  CHECK(c, OSQPVectorf_length(A.w) == n, "vector:length", "length");
  V e = a; if (n) { int k = s.range(0, n - 1); e[k] = (OSQPFloat)((double)e[k] + (s.chance(1, 2) ? 1 : -1) * 1e-3 * (1 + fabs((double)e[k]))); double df = fabs((double)e[k] - (double)a[k]); Vec E(s, e); CHECK(c, !OSQPVectorf_is_eq(A.w, E.w, (OSQPFloat)(df * 0.9)) && OSQPVectorf_is_eq(A.w, E.w, (OSQPFloat)(df * 1.1)), "vector:is_eq", "vectors that differ by %g in element %d of %d", df, k, n); e.pop_back(); Vec F(s, e); CHECK(c, !OSQPVectorf_is_eq(A.w, F.w, 1e30), "vector:is_eq", "vectors of different length"); } CHECK(c, OSQPVectorf_is_eq(A.w, A.w, 0), "vector:is_eq", "a vector differs from itself");
  bool leq = true; for (int i = 0; i < n; i++) if (a[i] > b[i]) leq = false; CHECK(c, !!OSQPVectorf_all_leq(A.w, B.w) == leq, "vector:all_leq", "all_leq"); { V hi(n); for (int i = 0; i < n; i++) hi[i] = s.chance(1, 2) ? a[i] : (OSQPFloat)((double)a[i] + fabs((double)b[i])); Vec H(s, hi); CHECK(c, OSQPVectorf_all_leq(A.w, H.w), "vector:all_leq", "all_leq of a vector and one that is larger"); if (n) { int k = s.range(0, n - 1); hi[k] = (OSQPFloat)((double)a[k] - 1e-3 * (1 + fabs((double)a[k]))); Vec L(s, hi); CHECK(c, !OSQPVectorf_all_leq(A.w, L.w), "vector:all_leq", "element %d of %d is smaller", k, n); } }
  // infinite entries where the other vector is zero do not count in the signed products
  if (n && s.chance(1, 2)) { V i2 = a, z = b; int k = s.range(0, n - 1); bool up = s.chance(1, 2); i2[k] = up ? INF : -INF; z[k] = 0; Vec I(s, i2), Z(s, z); ld p = 0, q = 0; for (int i = 0; i < n; i++) if (i != k) { if (z[i] > 0) p += (ld)a[i] * z[i]; if (z[i] < 0) q += (ld)a[i] * z[i]; } ck("dot_signed+", OSQPVectorf_dot_prod_signed(I.w, Z.w, 1), p, (n + 2) * ad); ck("dot_signed-", OSQPVectorf_dot_prod_signed(I.w, Z.w, -1), q, (n + 2) * ad); }
  CHECK(c, A.kept() && B.kept(), "vector:input", "a reduction changed its input"); bool nz = false; for (auto v : a) if (v != 0) nz = true; if (n > 1 && nz) c.nontrivial();
}
PROPERTY(C23, bounds, 2, "at least two elements with different kinds of bounds") {
  int n = glen(s); V l(n), u(n), y(n); VI t(n); std::vector<int> kind(n); bool mixed = false; OSQPFloat iv = (OSQPFloat)(s.chance(1, 3) ? 1e26 : pow(10, s.range(2, 28))), tol = (OSQPFloat)pow(10, -s.range(2, 12));
  auto fin = [&] { OSQPFloat v = gnum(s); return (OSQPFloat)std::max(-0.5 * (double)iv, std::min(0.5 * (double)iv, (double)v)); };
  for (int i = 0; i < n; i++) { kind[i] = s.range(0, 5); OSQPFloat a = fin(), b = fin(); if (a > b) std::swap(a, b); auto in = [&] { return s.chance(1, 2) ? INF : (OSQPFloat)((double)iv * (1 + 3 * s.unit() + 1e-3)); }; switch (kind[i]) { case 0: l[i] = a; u[i] = b; break; case 1: l[i] = u[i] = a; break; case 2: l[i] = -in(); u[i] = b; break; case 3: l[i] = a; u[i] = in(); break; case 4: l[i] = -in(); u[i] = in(); break; case 5: l[i] = a; u[i] = (OSQPFloat)((double)a + (double)tol * (s.chance(1, 2) ? 0.5 : 2)); break; } y[i] = gnum(s); if (s.chance(1, 8)) y[i] = (OSQPFloat)((double)tol * (s.chance(1, 2) ? -1 : 1) * (s.chance(1, 2) ? 0.5 : 2)); t[i] = s.range(-1, 1); if (kind[i] != kind[0]) mixed = true; }
  c.log("n %d inf %g tol %g\nl = %s\nu = %s\ny = %s", n, (double)iv, (double)tol, str(l).c_str(), str(u).c_str(), str(y).c_str()); Vec L(s, l), U(s, u), Y(s, y);
  bool x0 = s.chance(1, 2); Vec X(s, V(n, 7)); OSQPVectorf* o = x0 ? Y.w : X.w; OSQPVectorf_ew_bound_vec(o, Y.w, L.w, U.w); V r = x0 ? Y.get() : X.get(); for (int i = 0; i < n; i++) { OSQPFloat w = std::min(std::max(y[i], l[i]), u[i]); CHECK(c, r[i] == w, "vector:ew_bound_vec", "element %d: %.17g into [%g,%g] gives %.17g", i, (double)y[i], (double)l[i], (double)u[i], (double)r[i]); } CHECK(c, X.around() && Y.around() && L.kept() && U.kept() && (x0 || Y.kept()), "vector:input", "ew_bound_vec changed something else"); 
  { Vec P(s, y); OSQPVectorf_project_polar_reccone(P.w, L.w, U.w, iv); V g = P.get(); for (int i = 0; i < n; i++) { bool ui = u[i] > iv, li = l[i] < -iv; OSQPFloat w = ui && li ? 0 : ui ? std::min(y[i], (OSQPFloat)0) : li ? std::max(y[i], (OSQPFloat)0) : y[i]; CHECK(c, g[i] == w, "vector:project_polar_reccone", "element %d: %.17g for [%g,%g] gives %.17g", i, (double)y[i], (double)l[i], (double)u[i], (double)g[i]); } CHECK(c, P.around() && L.kept() && U.kept(), "vector:input", "project_polar_reccone changed something else"); }
  { V z = y; bool force = s.chance(1, 2); if (force) for (int i = 0; i < n; i++) { bool ui = u[i] > iv, li = l[i] < -iv; OSQPFloat sm = (OSQPFloat)(0.5 * (double)tol); if (!ui && z[i] > sm) z[i] = sm; if (!li && z[i] < -sm) z[i] = -sm; } if (force && n && s.chance(1, 2)) { int k = s.range(0, n - 1); z[k] = (OSQPFloat)(s.chance(1, 2) ? 2 * (double)tol : -2 * (double)tol); } bool edge = false, in = true; for (int i = 0; i < n; i++) { if (fabs((double)z[i]) == (double)tol) edge = true; bool ui = u[i] > iv, li = l[i] < -iv; if ((!ui && z[i] > tol) || (!li && z[i] < -tol)) in = false; } Vec Z(s, z); OSQPInt g = OSQPVectorf_in_reccone(Z.w, L.w, U.w, iv, tol); if (!edge) CHECK(c, !!g == in, "vector:in_reccone", "in_reccone says %d", (int)g); CHECK(c, Z.kept() && L.kept() && U.kept(), "vector:input", "in_reccone changed its input"); if (in && n) c.label("in-cone"); else c.label("out"); }
  { OSQPVectori* T = OSQPVectori_new(t.data(), n); OSQPInt ch = OSQPVectorf_ew_bounds_type(T, L.w, U.w, tol, iv); VI g(n + 1); OSQPVectori_to_raw(g.data(), T); CHECK(c, OSQPVectori_length(T) == n, "vector:length", "length"); bool any = false; for (int i = 0; i < n; i++) { int w = u[i] > iv && l[i] < -iv ? -1 : u[i] - l[i] < tol ? 1 : 0; if (w != t[i]) any = true; CHECK(c, g[i] == w, "vector:ew_bounds_type", "element %d: [%.17g,%.17g] is marked %d", i, (double)l[i], (double)u[i], (int)g[i]); } CHECK(c, !!ch == any, "vector:ew_bounds_type", "change reported as %d", (int)ch); ch = OSQPVectorf_ew_bounds_type(T, L.w, U.w, tol, iv); OSQPVectori_free(T); CHECK(c, !ch, "vector:ew_bounds_type", "a change is reported although nothing changed"); }
  if (mixed) c.nontrivial();
}
#ifndef WRAP_MKL   // operations that only the built-in algebra has
PROPERTY(C23, subvectors, 1, "a vector of at least two elements") {
  int n = glen(s), k = glen(s); V a = gvec(s, n), b = gvec(s, k); VI t(n); for (auto& e : t) e = s.range(-1, 1); c.log("n %d\na = %s\nb = %s", n, str(a).c_str(), str(b).c_str()); Vec A(s, a), B(s, b);
  { OSQPVectorf* C = OSQPVectorf_concat(A.w, B.w); CHECK(c, C && OSQPVectorf_length(C) == n + k, "vector:concat", "length"); V r(OSQPVectorf_data(C), OSQPVectorf_data(C) + n + k); OSQPVectorf_free(C); for (int i = 0; i < n + k; i++) CHECK(c, r[i] == (i < n ? a[i] : b[i - n]), "vector:concat", "element %d", i); }
  { OSQPVectori* T = OSQPVectori_new(t.data(), n); OSQPVectorf* R = OSQPVectorf_subvector_byrows(A.w, T); OSQPVectori_free(T); V w; for (int i = 0; i < n; i++) if (t[i]) w.push_back(a[i]); CHECK(c, R && OSQPVectorf_length(R) == (OSQPInt)w.size(), "vector:subvector_byrows", "length"); V r(OSQPVectorf_data(R), OSQPVectorf_data(R) + w.size()); OSQPVectorf_free(R); CHECK(c, r == w, "vector:subvector_byrows", "elements"); }
  ld q = 0; for (auto v : a) q += (ld)v * v; if (q < 1e30L) CHECK(c, nearly(OSQPVectorf_norm_2(A.w), sqrtl(q), (n + 2) * sqrtl(q)), "vector:norm_2", "norm_2"); CHECK(c, A.kept() && B.kept(), "vector:input", "inputs changed");
  { int h = s.range(0, n), l = std::min(s.range(0, n - h), k); OSQPFloat m = gscal(s); V w = a; for (int i = 0; i < l; i++) w[h + i] = m * b[i]; OSQPVectorf_subvector_assign(A.w, b.data(), h, l, m); V r = A.get(); for (int i = 0; i < n; i++) CHECK(c, nearly(r[i], w[i], fabsl((ld)w[i])), "vector:subvector_assign", "element %d", i); int h2 = s.range(0, n), l2 = s.range(0, n - h2); w = r; for (int i = 0; i < l2; i++) w[h2 + i] = m; OSQPVectorf_subvector_assign_scalar(A.w, m, h2, l2); CHECK(c, A.get() == w && A.around(), "vector:subvector_assign_scalar", "elements"); }
  if (n > 1) c.nontrivial();
}
#endif
namespace {
struct Mat { Csc v; bool tri; OSQPMatrix* M = nullptr; Mat(const Csc& a, bool t) : v(a), tri(t) { OSQPCscMatrix w = v.view(); M = OSQPMatrix_new_from_csc(&w, t); } Mat(const Mat&) = delete; ~Mat() { if (M) OSQPMatrix_free(M); }
  void sync(Ctx& c, const char* op) { // stored entries against the model, then adopt their rounding
    CHECK(c, OSQPMatrix_get_m(M) == v.m && OSQPMatrix_get_n(M) == v.n && OSQPMatrix_get_nz(M) == v.nnz(), "matrix:shape", "%s: dimensions or number of entries are wrong", op); OSQPFloat* x = OSQPMatrix_get_x(M); OSQPInt *pi = OSQPMatrix_get_i(M), *pp = OSQPMatrix_get_p(M); for (int j = 0; j <= v.n; j++) CHECK(c, pp[j] == v.p[j], "matrix:shape", "%s: column pointer %d", op, j);
    for (int k = 0; k < v.nnz(); k++) { CHECK(c, pi[k] == v.i[k], "matrix:shape", "%s: row index %d", op, k); CHECK(c, nearly(x[k], v.x[k], fabsl((ld)v.x[k])), std::string("matrix:") + op, "%s: entry %d is %.17g, should be %.17g", op, k, (double)x[k], (double)v.x[k]); v.x[k] = x[k]; } }
  ld at(int i, int j) const { if (tri && i > j) std::swap(i, j); for (OSQPInt k = v.p[j]; k < v.p[j + 1]; k++) if (v.i[k] == i) return v.x[k]; return 0; } };
Csc gmat(Src& s, int m, int n, bool tri) { Csc a; a.m = m; a.n = n; a.p.push_back(0); int den = s.range(0, 4); for (int j = 0; j < n; j++) { bool empty = s.chance(1, 6); for (int i = 0; i < m; i++) { if (tri && i > j) break; if (!empty && (den == 4 || s.range(0, 3) < den || (tri && i == j && s.chance(1, 2)))) { a.i.push_back(i); a.x.push_back(s.chance(1, 12) ? 0 : gnum(s)); } } a.p.push_back((OSQPInt)a.i.size()); } return a; }
void log_mat(Ctx& c, const char* nm, const Csc& a) { c.log("%s %dx%d p:", nm, a.m, a.n); std::string r; for (auto v : a.p) r += " " + std::to_string((long long)v); r += " i:"; for (auto v : a.i) r += " " + std::to_string((long long)v); c.log("%s\n x: %s", r.c_str(), str(a.x).c_str()); }
}
PROPERTY(C23, matrices, 4, "a matrix with at least two entries went through changes and queries") {
  bool tri = s.chance(1, 3); int big = s.chance(1, 10) ? 40 : 9, n = s.range(0, big), m = tri ? n : s.range(0, big); Csc a = gmat(s, m, n, tri); log_mat(c, tri ? "triangular" : "full", a); Csc copy = a; Mat A(a, tri); CHECK(c, A.M, "matrix:new", "construction failed"); CHECK(c, a.p == copy.p && a.i == copy.i && a.x == copy.x, "matrix:input", "the input was changed"); A.sync(c, "new"); if (a.nnz() > 1) c.nontrivial();
  int K = s.range(1, 7); for (int k = 0; k < K; k++) { int op = s.range(0, 13); c.log("op %d", op); Csc& v = A.v;
    if (op == 0) { OSQPFloat sc = gscal(s); OSQPMatrix_mult_scalar(A.M, sc); for (auto& e : v.x) e *= sc; A.sync(c, "mult_scalar"); }
    else if (op == 1 || op == 2) { int len = op == 1 ? m : n; V d = gvec(s, len); for (auto& e : d) if (fabs((double)e) > 1e3) e = 3; Vec D(s, d); if (op == 1) OSQPMatrix_lmult_diag(A.M, D.w); else OSQPMatrix_rmult_diag(A.M, D.w); for (int j = 0; j < n; j++) for (OSQPInt t = v.p[j]; t < v.p[j + 1]; t++) v.x[t] = (OSQPFloat)((ld)v.x[t] * d[op == 1 ? v.i[t] : j]); A.sync(c, op == 1 ? "lmult_diag" : "rmult_diag"); CHECK(c, D.kept(), "matrix:input", "a scaling changed its vector"); }
    else if (op == 3) { int nz = v.nnz(); if (s.chance(1, 2) || !nz) { V x = gvec(s, nz); OSQPMatrix_update_values(A.M, nz ? x.data() : nullptr, nullptr, nz); v.x = x; } else { int q = s.range(0, nz); VI ix(q); V x = gvec(s, q); for (int t = 0; t < q; t++) ix[t] = s.range(0, nz - 1); OSQPMatrix_update_values(A.M, x.data(), ix.data(), q); for (int t = 0; t < q; t++) v.x[ix[t]] = x[t]; } A.sync(c, "update_values"); }
    else if (op <= 7) { bool tr = op >= 6; int nx = tr ? m : n, ny = tr ? n : m; V x = gvec(s, nx), y = gvec(s, ny); OSQPFloat al = gscal(s), be = gscal(s); bool poison = be == 0 && s.chance(1, 2); V y0 = y; if (poison) for (auto& e : y) e = NAN_; Vec X(s, x), Y(s, y); if (tr) OSQPMatrix_Atxpy(A.M, X.w, Y.w, al, be); else OSQPMatrix_Axpy(A.M, X.w, Y.w, al, be); V r = Y.get(); CHECK(c, X.kept() && Y.around(), "matrix:input", "a product changed its input or more than its output"); c.log("alpha %g beta %g x = %s y = %s", (double)al, (double)be, str(x).c_str(), str(y).c_str());
      for (int i = 0; i < ny; i++) { ld w = be == 0 ? 0 : (ld)be * y0[i], g = fabsl(w); for (int j = 0; j < nx; j++) { ld t = (ld)al * (tr ? A.at(j, i) : A.at(i, j)) * x[j]; w += t; g += fabsl(t); } CHECK(c, nearly(r[i], w, (nx + 3) * g), tr ? "matrix:Atxpy" : "matrix:Axpy", "%s: element %d is %.17g, should be %.17Lg (alpha %g, beta %g, %s)", tr ? "Atxpy" : "Axpy", i, (double)r[i], w, (double)al, (double)be, tri ? "triangular storage" : "full"); } A.sync(c, "product"); c.label(tr ? "Atxpy" : "Axpy"); }
    else if (op == 8) { Vec E(s, V(n, 5)); OSQPMatrix_col_norm_inf(A.M, E.w); V r = E.get(); for (int j = 0; j < n; j++) { ld f = 0, h = 0; for (int i = 0; i < m; i++) { f = std::max(f, fabsl(A.at(i, j))); if (!tri || i <= j) h = std::max(h, fabsl(A.at(i, j))); } CHECK(c, (ld)r[j] == f || (tri && (ld)r[j] == h), "matrix:col_norm", "column %d: %.17g instead of %.17Lg", j, (double)r[j], f); } CHECK(c, E.around(), "matrix:input", "col_norm wrote outside"); A.sync(c, "col_norm"); }
    else if (op == 9) { Vec E(s, V(m, 5)); OSQPMatrix_row_norm_inf(A.M, E.w); V r = E.get(); for (int i = 0; i < m; i++) { ld f = 0; for (int j = 0; j < n; j++) f = std::max(f, fabsl(A.at(i, j))); CHECK(c, (ld)r[i] == f, "matrix:row_norm", "row %d: %.17g instead of %.17Lg", i, (double)r[i], f); } CHECK(c, E.around(), "matrix:input", "row_norm wrote outside"); A.sync(c, "row_norm"); }
    else if (op == 10) { Vec E(s, V(n, 5)); OSQPMatrix_extract_diag(A.M, E.w); V r = E.get(); for (int j = 0; j < n; j++) CHECK(c, (ld)r[j] == (j < m ? A.at(j, j) : 0), "matrix:extract_diag", "entry %d is %.17g", j, (double)r[j]); CHECK(c, E.around(), "matrix:input", "extract_diag wrote outside"); A.sync(c, "extract_diag"); }
    else if (op == 11 && !tri) { V d = gvec(s, m); Vec D(s, d), E(s, V(n, 5)); OSQPMatrix_AtDA_extract_diag(A.M, D.w, E.w); V r = E.get(); for (int j = 0; j < n; j++) { ld w = 0, g = 0; for (int i = 0; i < m; i++) { ld t = A.at(i, j) * A.at(i, j) * d[i]; w += t; g += fabsl(t); } CHECK(c, nearly(r[j], w, (m + 3) * g), "matrix:AtDA", "entry %d is %.17g, should be %.17Lg", j, (double)r[j], w); } CHECK(c, D.kept() && E.around(), "matrix:input", "AtDA changed something else"); A.sync(c, "AtDA"); }
    else if (op == 12 && !tri) { VI t(m); for (auto& e : t) e = s.chance(1, 2) ? s.range(-1, 2) : 0; OSQPVectori* T = OSQPVectori_new(t.data(), m); OSQPMatrix* S = OSQPMatrix_submatrix_byrows(A.M, T); OSQPVectori_free(T); CHECK(c, S, "matrix:submatrix", "row selection failed"); Csc w; w.n = n; w.p.push_back(0); std::vector<int> ix(m, -1); for (int i = 0; i < m; i++) if (t[i]) ix[i] = w.m++; for (int j = 0; j < n; j++) { for (OSQPInt q = v.p[j]; q < v.p[j + 1]; q++) if (ix[v.i[q]] >= 0) { w.i.push_back(ix[v.i[q]]); w.x.push_back(v.x[q]); } w.p.push_back((OSQPInt)w.i.size()); } Mat W(w, false); OSQPMatrix_free(W.M); W.M = S; W.sync(c, "submatrix"); V x = gvec(s, n); Vec X(s, x), Y(s, V(w.m, NAN_)); OSQPMatrix_Axpy(S, X.w, Y.w, 1, 0); V r = Y.get(); for (int i = 0; i < w.m; i++) { ld z = 0, g = 0; for (int j = 0; j < n; j++) { ld e = W.at(i, j) * x[j]; z += e; g += fabsl(e); } CHECK(c, nearly(r[i], z, (n + 3) * g), "matrix:submatrix-product", "row %d", i); } A.sync(c, "submatrix"); c.label("submatrix"); }
    else if (op == 13) { OSQPCscMatrix* C = OSQPMatrix_get_csc(A.M); CHECK(c, C && C->m == m && C->n == n, "matrix:get_csc", "dimensions"); for (int j = 0; j <= n; j++) CHECK(c, C->p[j] == v.p[j], "matrix:get_csc", "column pointers"); for (int k2 = 0; k2 < v.nnz(); k2++) CHECK(c, C->i[k2] == v.i[k2] && C->x[k2] == v.x[k2], "matrix:get_csc", "entry %d", k2); OSQPMatrix* B = OSQPMatrix_new_from_csc(C, tri); if (v.nnz()) C->x[0] = 99; c_free(C->x); c_free(C->i); c_free(C->p); c_free(C); A.sync(c, "get_csc"); CHECK(c, OSQPMatrix_is_eq(A.M, B, 0), "matrix:is_eq", "a copy differs"); if (v.nnz()) { V x = v.x; int q = s.range(0, v.nnz() - 1); double df = 1e-3 * (1 + fabs((double)x[q])); x[q] = (OSQPFloat)((double)x[q] + df); OSQPMatrix_update_values(B, x.data(), nullptr, v.nnz()); CHECK(c, !OSQPMatrix_is_eq(A.M, B, (OSQPFloat)(0.9 * df)) && OSQPMatrix_is_eq(A.M, B, (OSQPFloat)(1.1 * df)), "matrix:is_eq", "matrices that differ by %g in entry %d", df, q); } OSQPMatrix_free(B); }
#ifndef WRAP_MKL
    else if (op == 12 && tri) { OSQPMatrix* S = OSQPMatrix_triu_to_symm(A.M); CHECK(c, S, "matrix:triu_to_symm", "failed"); Csc w; w.m = w.n = n; w.p.push_back(0); for (int j = 0; j < n; j++) { for (int i = 0; i < n; i++) for (OSQPInt q = v.p[std::max(i, j)]; q < v.p[std::max(i, j) + 1]; q++) if (v.i[q] == std::min(i, j)) { w.i.push_back(i); w.x.push_back(v.x[q]); } w.p.push_back((OSQPInt)w.i.size()); } Mat W(w, false); OSQPMatrix_free(W.M); W.M = S; W.sync(c, "triu_to_symm"); A.sync(c, "triu_to_symm"); }
    else if (op == 11 && tri) { OSQPMatrix* S = OSQPMatrix_copy_new(A.M); CHECK(c, S && OSQPMatrix_is_eq(A.M, S, 0), "matrix:copy_new", "the copy differs"); OSQPMatrix_free(S); }
#endif
  }
#ifndef WRAP_MKL
  if (!tri) { Csc b = gmat(s, s.range(0, 6), n, false); Mat B(b, false); OSQPMatrix* S = OSQPMatrix_vstack(A.M, B.M); CHECK(c, S, "matrix:vstack", "failed"); Csc w; w.m = m + b.m; w.n = n; w.p.push_back(0); for (int j = 0; j < n; j++) { for (OSQPInt q = A.v.p[j]; q < A.v.p[j + 1]; q++) { w.i.push_back(A.v.i[q]); w.x.push_back(A.v.x[q]); } for (OSQPInt q = b.p[j]; q < b.p[j + 1]; q++) { w.i.push_back(m + b.i[q]); w.x.push_back(b.x[q]); } w.p.push_back((OSQPInt)w.i.size()); } Mat W(w, false); OSQPMatrix_free(W.M); W.M = S; W.sync(c, "vstack"); A.sync(c, "vstack"); B.sync(c, "vstack"); }
#endif
}
