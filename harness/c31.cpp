// C31: the internal rescaling.
#include "hist.hpp"
static const double RT = sizeof(OSQPFloat) == 8 ? 1e-12 : 2e-4, EPS = sizeof(OSQPFloat) == 8 ? 2.3e-16 : 1.2e-7;
// the stored factors and the stored problem against the caller's problem; n = number of matrix updates so far
static bool check_scaling(Ctx& c, Osqp& q, const Prob& p, const Prob& at, int iters, int n, const char* when) {
  V D, E, Di, Ei, sq, sl, su; double cc, ci; Csc P, A; bool has = peek_scaling(q.s, D, E, Di, Ei, cc, ci); if (!peek_data(q.s, sq, sl, su) || !peek_mats(q.s, P, A)) return false; if (!has) { if (iters) return false; D.assign(p.n, 1); Di = D; E.assign(p.m, 1); Ei = E; cc = ci = 1; }
  double lo = pow(1e-2, iters) * (1 - 1e-9), hi = pow(1e2, iters) * (1 + 1e-9), clo = pow(1e-4, iters) * (1 - 1e-9), chi = pow(1e4, iters) * (1 + 1e-9);
  auto fac = [&](const V& f, const V& fi, const char* nm) { for (size_t k = 0; k < f.size(); k++) { CHECK(c, f[k] > 0 && f[k] >= lo && f[k] <= hi, "scale:bounded", "%s: %s[%d] is %g after %d rounds", when, nm, (int)k, (double)f[k], iters); CHECK(c, fabs((double)f[k] * fi[k] - 1) <= 8 * EPS, "scale:inverse", "%s: %s[%d] is %.17g, its stored inverse %.17g", when, nm, (int)k, (double)f[k], (double)fi[k]); } };
  fac(D, Di, "D"); fac(E, Ei, "E"); CHECK(c, cc > 0 && cc >= clo && cc <= chi && fabs(cc * ci - 1) <= 8 * EPS, "scale:cost-factor", "%s: cost factor %.17g, inverse %.17g", when, cc, ci);
  double tol = RT * (1 + n); 
  auto eq = [&](double v, ld w) { return v == (double)w || fabsl((ld)v - w) <= tol * fabsl(w) + 1e-300L; };
  for (int j = 0; j < p.n; j++) { CHECK(c, eq(sq[j], (ld)cc * D[j] * p.q[j]), "scale:q", "%s (%d updates): stored q[%d] is %.17g, expected %.17Lg", when, n, j, (double)sq[j], (ld)cc * D[j] * p.q[j]); 
    CHECK(c, P.p[j + 1] - P.p[j] >= p.P.p[j + 1] - p.P.p[j] && A.p[j + 1] - A.p[j] == p.A.p[j + 1] - p.A.p[j], "scale:pattern", "%s: column %d of the stored matrices has another number of entries", when, j); }
  bool same = P.p == p.P.p && P.i == p.P.i && A.i == p.A.i; if (same) for (int j = 0; j < p.n; j++) { for (OSQPInt k = p.P.p[j]; k < p.P.p[j + 1]; k++) { ld w = (ld)cc * D[j] * D[p.P.i[k]] * p.P.x[k]; CHECK(c, eq(P.x[k], w), "scale:P", "%s (%d updates): stored P(%d,%d) is %.17g, expected %.17Lg", when, n, (int)p.P.i[k], j, (double)P.x[k], w); } for (OSQPInt k = p.A.p[j]; k < p.A.p[j + 1]; k++) { ld w = (ld)E[p.A.i[k]] * D[j] * p.A.x[k]; CHECK(c, eq(A.x[k], w), "scale:A", "%s (%d updates): stored A(%d,%d) is %.17g, expected %.17Lg", when, n, (int)p.A.i[k], j, (double)A.x[k], w); } }
  for (int i = 0; i < p.m; i++) for (int k = 0; k < 2; k++) { double v = k ? su[i] : sl[i], b = k ? p.u[i] : p.l[i]; CHECK(c, eq(v, (ld)E[i] * b), "scale:bounds", "%s (%d updates): stored %c[%d] is %.17g, expected %.17Lg", when, n, k ? 'u' : 'l', i, v, (ld)E[i] * b); }
  // the factors are those of the documented procedure for the problem `at` they were computed for
  if (iters && has) { VL rD, rE; ld rc; bool edge, edge2; scaling_ref(at, iters, rD, rE, rc, edge, true); VL fD, fE; ld fc; scaling_ref(at, iters, fD, fE, fc, edge2, false); if (!edge && !edge2) { double ft = (sizeof(OSQPFloat) == 8 ? 1e-10 : 5e-3) * (1 + n); bool okA = true, okB = true; int bad = -1; for (int j = 0; j < p.n; j++) { if (!close(D[j], (double)rD[j], ft, 0)) { okA = false; bad = j; } if (!close(D[j], (double)fD[j], ft, 0)) okB = false; } for (int i = 0; i < p.m; i++) { if (!close(E[i], (double)rE[i], ft, 0)) { okA = false; bad = p.n + i; } if (!close(E[i], (double)fE[i], ft, 0)) okB = false; } if (!close(cc, (double)rc, ft, 0)) { okA = false; bad = p.n + p.m; } if (!close(cc, (double)fc, ft, 0)) okB = false;
    CHECK(c, okA || okB, "scale:procedure", "%s: factor %s[%d] is %.12g, the documented procedure gives %.12Lg", when, bad < p.n ? "D" : bad < p.n + p.m ? "E" : "c", bad < p.n ? bad : bad - p.n, bad < p.n ? (double)D[bad] : bad < p.n + p.m ? (double)E[bad - p.n] : cc, bad < p.n ? rD[bad] : bad < p.n + p.m ? rE[bad - p.n] : rc); c.label("procedure"); } else c.label("edge");
    // rows and columns without entries are left alone
    for (int i = 0; i < p.m; i++) { bool z = true; for (size_t k = 0; k < at.A.i.size(); k++) if (at.A.i[k] == i && at.A.x[k] != 0) z = false; if (z) { CHECK(c, E[i] == 1, "scale:zero-row", "%s: row %d is zero but scaled by %g", when, i, (double)E[i]); c.label("zero-row"); } }
    for (int j = 0; j < p.n; j++) { bool z = true; for (OSQPInt k = at.A.p[j]; k < at.A.p[j + 1]; k++) if (at.A.x[k] != 0) z = false; for (int jj = 0; jj < p.n; jj++) for (OSQPInt k = at.P.p[jj]; k < at.P.p[jj + 1]; k++) if ((jj == j || at.P.i[k] == j) && at.P.x[k] != 0) z = false; if (z) { CHECK(c, D[j] == 1, "scale:zero-column", "%s: variable %d appears nowhere but is scaled by %g", when, j, (double)D[j]); c.label("zero-column"); } } }
  return true;
}
PROPERTY(C31, history, 3, "the problem was rescaled and updated") {
  GenOpt o; if (s.chance(1, 6)) { o.nmax = 20; o.mmax = 24; } Prob p = gen_any(s, o); SetOpt so; OSQPSettings st = gen_settings(s, so); st.max_iter = s.range(1, 60); if (st.scaling == 50 && s.chance(1, 2)) st.scaling = s.range(1, 12);
  if (s.chance(1, 3)) for (auto& v : p.A.x) if (s.chance(1, 4)) v = (OSQPFloat)((double)v * pow(10.0, s.range(-7, 7))); if (s.chance(1, 4)) { double f = pow(10.0, s.range(-8, 8)); for (auto& v : p.q) v = (OSQPFloat)((double)v * f); } if (s.chance(1, 4)) { double f = pow(10.0, s.range(-8, 8)); for (auto& v : p.P.x) v = (OSQPFloat)((double)v * f); }
  log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); int it = (int)st.scaling, n = 0; Prob at = p; if (!check_scaling(c, q, p, at, it, n, "after setup")) c.discard(); if (it) c.label("scaled");
  int k = s.range(0, 6); for (int i = 0; i < k; i++) { OpOpt oo; oo.so = so; oo.wMat = 4; Op op = gen_op(s, p, st, oo); log_op(c, op); if (apply_op(q, op)) { if (op.k == O_MAT) return; continue; } model_op(p, op); if (op.k == O_MAT && it) { n++; at = p; } if (op.k == O_MAT || op.k == O_VEC) { check_scaling(c, q, p, at, it, n, op_name(op.k)); if (it) c.nontrivial(); } else if (op.k == O_SOLVE) check_scaling(c, q, p, at, it, n, "after a solve"); }
}
// many matrix updates in a row: going back and forth does not wear the data down
PROPERTY(C31, no_drift, 1, "at least twenty matrix updates of a scaled problem") {
  GenOpt o; o.nmax = 6; o.mmax = 7; Prob p = gen_any(s, o); SetOpt so; so.linsys = false; OSQPSettings st = gen_settings(s, so); if (!st.scaling) st.scaling = 10; st.max_iter = 5; log_prob(c, p); log_settings(c, st); Osqp q; if (q.setup(p, st)) c.discard(); int N = s.range(20, 60), n = 0; Prob at = p; bool changing = s.chance(1, 3); c.log("%d updates", N);
  for (int k = 0; k < N; k++) { Op op = changing ? gen_mat(s, p, true) : Op(); if (!changing) { op.k = O_MAT; if (k & 1 && p.A.nnz()) { op.hA = op.aall = true; op.Ax = p.A.x; } else if (p.P.nnz()) { op.hP = op.pall = true; op.Px = p.P.x; } else if (p.A.nnz()) { op.hA = op.aall = true; op.Ax = p.A.x; } else return; } if (apply_op(q, op)) return; model_op(p, op); if (op.k == O_MAT) { n++; at = p; } if (k % 7 == 6 || k == N - 1) if (!check_scaling(c, q, p, at, (int)st.scaling, n, "after many updates")) c.discard(); }
  if (n >= 20) c.nontrivial();
}
