// C24: KKT assembly, updates and sparse conversions against a dense/explicit model.
#include "hist.hpp"
extern "C" {
#include "glob_opts.h"
#include "algebra_vector.h"
#include "algebra_matrix.h"
#include "csc_utils.h"
#include "kkt.h"
#ifdef WRAP_MKL
#include "reduced_kkt.h"
#endif
}
namespace {
const double EPS = sizeof(OSQPFloat) == 8 ? 2.3e-16 : 1.2e-7;
OSQPFloat gnum(Src& s) { switch (s.range(0, 7)) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (OSQPFloat)((2 * s.unit() - 1) * pow(10, s.range(-9, 9))); default: return (OSQPFloat)(2 * s.unit() - 1); } }
V gvec(Src& s, int n) { V v(n); for (auto& e : v) e = gnum(s); return v; }
// distinct values everywhere, so that a misplaced entry shows
Csc gmat(Src& s, int m, int n, bool tri) { Csc a; a.m = m; a.n = n; a.p.push_back(0); int den = s.range(0, 4), dg = s.range(0, 2); for (int j = 0; j < n; j++) { bool empty = s.chance(1, 6); for (int i = 0; i < m; i++) { if (tri && i > j) break; bool put = !empty && (den == 4 || s.range(0, 3) < den); if (tri && i == j && dg) put = dg == 2 || s.chance(1, 2); if (put) { a.i.push_back(i); a.x.push_back(s.chance(1, 16) ? 0 : (OSQPFloat)((1 + s.range(0, 1000)) * (s.chance(1, 2) ? 0.001 : -0.001) * (s.chance(1, 8) ? 1e6 : 1))); } } a.p.push_back((OSQPInt)a.i.size()); } return a; }
void logm(Ctx& c, const char* nm, const Csc& a) { std::string r = std::string(nm) + " " + std::to_string(a.m) + "x" + std::to_string(a.n) + ":"; for (int j = 0; j < a.n; j++) for (OSQPInt k = a.p[j]; k < a.p[j + 1]; k++) { char b[60]; snprintf(b, sizeof b, " (%d,%d)=%.9g", (int)a.i[k], j, (double)a.x[k]); r += b; if (r.size() > 900) { c.log("%s ...", r.c_str()); return; } } c.log("%s", r.c_str()); }
bool well_formed(const OSQPCscMatrix* C, bool sorted) { if (C->p[0] != 0) return false; for (OSQPInt j = 0; j < C->n; j++) { if (C->p[j + 1] < C->p[j] || C->p[j + 1] > C->nzmax) return false; for (OSQPInt k = C->p[j]; k < C->p[j + 1]; k++) { if (C->i[k] < 0 || C->i[k] >= C->m) return false; if (sorted && k > C->p[j] && C->i[k] <= C->i[k - 1]) return false; } } return true; }
struct Own { OSQPCscMatrix* M; Own(OSQPCscMatrix* m) : M(m) {} Own(const Own&) = delete; ~Own() { csc_spfree(M); } OSQPCscMatrix* operator->() const { return M; } };
struct View { Csc a, keep; OSQPCscMatrix v; View(const Csc& x) : a(x), keep(x) { v = a.view(); if (!a.nnz()) { a.i.reserve(1); a.x.reserve(1); v = a.view(); } } bool kept() const { return a.p == keep.p && a.i == keep.i && (a.x.empty() || memcmp(a.x.data(), keep.x.data(), a.x.size() * sizeof(OSQPFloat)) == 0); } };
}
PROPERTY(C24, kkt, 4, "a KKT matrix with entries in both blocks") {
  int big = s.chance(1, 10) ? 25 : 8, n = s.range(1, big), m = s.range(0, big), fmt = s.range(0, 1); Csc P = gmat(s, n, n, true), A = gmat(s, m, n, false); OSQPFloat p1 = (OSQPFloat)(s.chance(1, 6) ? 0 : pow(10, -s.range(0, 8))), sc = (OSQPFloat)fabs((double)gnum(s)); V r(m); for (auto& e : r) e = (OSQPFloat)(0.001 * s.range(1, 5000)); bool vec = s.chance(1, 2), maps = s.chance(4, 5);
  c.log("format %d param1 %g param2 %s maps %d", fmt, (double)p1, vec ? "vector" : "scalar", maps); logm(c, "P", P); logm(c, "A", A);
  VI pk(P.nnz() + 2, -7), ak(A.nnz() + 2, -7), rk(m + 2, -7); View vp(P), va(A); V rr = r; rr.push_back(-1);
  Own K(form_KKT(&vp.v, &va.v, fmt, p1, vec ? rr.data() : nullptr, sc, maps ? pk.data() : nullptr, maps ? ak.data() : nullptr, maps ? rk.data() : nullptr)); CHECK(c, K.M, "kkt:form", "assembly failed");
  CHECK(c, vp.kept() && va.kept(), "kkt:input", "an input matrix was changed"); CHECK(c, pk[P.nnz()] == -7 && ak[A.nnz()] == -7 && rk[m] == -7, "kkt:map", "a map was written beyond its end");
  auto verify = [&](const char* when) {
    int N = n + m; CHECK(c, K->m == N && K->n == N, "kkt:shape", "%s: %dx%d", when, (int)K->m, (int)K->n); CHECK(c, well_formed(K.M, true), "kkt:structure", "%s: the columns are not well formed and sorted", when);
    std::vector<ld> W(N * N, 0), S(N * N, 0); std::vector<char> has(N * N, 0); auto put = [&](int i, int j, ld v) { int q = fmt == 0 ? i * N + j : j * N + i; W[q] += v; S[q] += fabsl(v); has[q] = 1; };   // CSR upper = CSC lower
    for (int j = 0; j < n; j++) { put(j, j, p1); for (OSQPInt k = P.p[j]; k < P.p[j + 1]; k++) put((int)P.i[k], j, P.x[k]); for (OSQPInt k = A.p[j]; k < A.p[j + 1]; k++) put(j, n + (int)A.i[k], A.x[k]); } for (int i = 0; i < m; i++) put(n + i, n + i, -(vec ? (ld)r[i] : (ld)sc));
    long cnt = 0; for (char h : has) cnt += h; CHECK(c, K->p[N] == cnt, "kkt:count", "%s: %ld entries, %ld intended", when, (long)K->p[N], cnt);
    for (int j = 0; j < N; j++) for (OSQPInt k = K->p[j]; k < K->p[j + 1]; k++) { int q = (int)K->i[k] * N + j; CHECK(c, has[q], "kkt:entry", "%s: there is an entry at (%d,%d)", when, (int)K->i[k], j); CHECK(c, fabsl((ld)K->x[k] - W[q]) <= 2 * EPS * S[q], "kkt:value", "%s: entry (%d,%d) is %.17g, should be %.17Lg", when, (int)K->i[k], j, (double)K->x[k], W[q]); }
    if (maps) { auto pos = [&](OSQPInt d, int i, int j) { if (fmt) std::swap(i, j); return d >= 0 && d < K->p[N] && K->i[d] == i && K->p[j] <= d && d < K->p[j + 1]; }; for (int j = 0; j < n; j++) { for (OSQPInt k = P.p[j]; k < P.p[j + 1]; k++) CHECK(c, pos(pk[k], (int)P.i[k], j), "kkt:map", "%s: cost entry %d maps to %d", when, (int)k, (int)pk[k]); for (OSQPInt k = A.p[j]; k < A.p[j + 1]; k++) CHECK(c, pos(ak[k], j, n + (int)A.i[k]), "kkt:map", "%s: constraint entry %d maps to %d", when, (int)k, (int)ak[k]); } for (int i = 0; i < m; i++) CHECK(c, pos(rk[i], n + i, n + i), "kkt:map", "%s: parameter %d maps to %d", when, i, (int)rk[i]); } };
  verify("assembly"); if (P.nnz() && A.nnz()) c.nontrivial();
  if (maps) { int ops = s.range(0, 6); for (int o = 0; o < ops; o++) { int w = s.range(0, 3);
      if (w == 0 || w == 1) { Csc& M = w ? A : P; View& v = w ? va : vp; int nz = M.nnz(); bool all = s.chance(1, 3); int q = all ? nz : nz ? s.range(0, nz) : 0; VI ix(q + 1); for (int t = 0; t < q; t++) { int k = all ? t : s.range(0, nz - 1); ix[t] = k; M.x[k] = gnum(s); } if (q == 0) continue; v.a.x = M.x; v.keep = v.a; v.v = v.a.view(); VI ik = ix; c.log("update of %d %s entries%s", q, w ? "constraint" : "cost", all ? " (all)" : "");
        if (w) update_KKT_A(K.M, &v.v, all ? nullptr : ix.data(), q, ak.data()); else update_KKT_P(K.M, &v.v, all ? nullptr : ix.data(), q, pk.data(), p1, fmt); CHECK(c, v.kept() && ik == ix, "kkt:input", "an update changed its input"); verify(w ? "update of A" : "update of P"); }
      else { vec = s.chance(1, 2); for (auto& e : r) e = (OSQPFloat)(0.001 * s.range(1, 5000)); sc = (OSQPFloat)(0.001 * s.range(1, 5000)); V r2 = r; r2.push_back(0); c.log("update of the parameters (%s)", vec ? "vector" : "scalar"); update_KKT_param2(K.M, vec ? r2.data() : nullptr, sc, rk.data(), m); verify("update of the parameters"); } }
    c.label("updated"); }
  c.label(fmt ? "csr" : "csc");
}
#ifdef WRAP_MKL
PROPERTY(C24, reduced, 1, "both matrices have entries") {
  int n = s.range(1, 8), m = s.range(0, 8); Csc P = gmat(s, n, n, true), A = gmat(s, m, n, false); V rho(m), x = gvec(s, n), b1 = gvec(s, n), b2 = gvec(s, m); for (auto& e : rho) e = (OSQPFloat)(0.001 * s.range(1, 5000)); OSQPFloat sg = (OSQPFloat)pow(10, -s.range(0, 8)); logm(c, "P", P); logm(c, "A", A); View vp(P), va(A); OSQPMatrix *MP = OSQPMatrix_new_from_csc(&vp.v, 1), *MA = OSQPMatrix_new_from_csc(&va.v, 0);
  struct F { OSQPVectorf* v; F(const V& a) : v(OSQPVectorf_new(a.data(), (OSQPInt)a.size())) {} ~F() { OSQPVectorf_free(v); } V get() { return V(OSQPVectorf_data(v), OSQPVectorf_data(v) + OSQPVectorf_length(v)); } } R(rho), X(x), O(V(n, (OSQPFloat)NAN)), W(V(m, (OSQPFloat)NAN)), D(V(n, 9)), DI(V(n, 9)), B1(b1), B2(b2), W2(V(m, (OSQPFloat)NAN));
  std::vector<double> dP = denseSym(P), dA = dense(A); reduced_kkt_mv_times(MP, MA, R.v, sg, X.v, O.v, W.v); reduced_kkt_diagonal(MP, MA, R.v, sg, D.v, DI.v); reduced_kkt_compute_rhs(MA, R.v, B1.v, B2.v, W2.v); V o = O.get(), d = D.get(), di = DI.get(), bb = B1.get(); bool kept = X.get() == x && R.get() == rho && B2.get() == b2; OSQPMatrix_free(MP); OSQPMatrix_free(MA); CHECK(c, kept, "reduced:input", "an input vector was changed");
  VL Ax(m, 0), gA(m, 0); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { Ax[i] += (ld)dA[i * n + j] * x[j]; gA[i] += fabsl((ld)dA[i * n + j] * x[j]); }
  for (int j = 0; j < n; j++) { ld w = (ld)sg * x[j], g = fabsl(w), dd = (ld)sg + dP[j * n + j], dg = (ld)sg + fabsl((ld)dP[j * n + j]), rh = b1[j], rg = fabsl(rh); for (int k = 0; k < n; k++) { w += (ld)dP[j * n + k] * x[k]; g += fabsl((ld)dP[j * n + k] * x[k]); } for (int i = 0; i < m; i++) { ld a = dA[i * n + j]; w += a * rho[i] * Ax[i]; g += fabsl(a) * rho[i] * gA[i]; dd += a * a * rho[i]; dg += a * a * rho[i]; rh += a * rho[i] * b2[i]; rg += fabsl(a * rho[i] * b2[i]); } ld tol = (n + m + 8) * 2 * EPS;
    CHECK(c, fabsl(o[j] - w) <= tol * g, "reduced:product", "element %d is %.17g, should be %.17Lg", j, (double)o[j], w); CHECK(c, fabsl(d[j] - dd) <= tol * dg, "reduced:diagonal", "element %d is %.17g, should be %.17Lg", j, (double)d[j], dd); if (d[j] != 0) CHECK(c, fabsl((ld)di[j] * d[j] - 1) <= 8 * EPS, "reduced:inverse", "element %d of the inverse diagonal is %.17g for %.17g", j, (double)di[j], (double)d[j]); CHECK(c, fabsl(bb[j] - rh) <= tol * rg, "reduced:rhs", "element %d is %.17g, should be %.17Lg", j, (double)bb[j], rh); }
  if (P.nnz() && A.nnz()) c.nontrivial();
}
#endif
