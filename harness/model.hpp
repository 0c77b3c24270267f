// Problems, generators, independent (dense, long double) re-computation and a
// thin wrapper over the public API.
#pragma once
#include "engine.hpp"
#include "env.h"
#include "osqp.h"
#include <vector>
#include <string>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <limits>
typedef long double ld;
typedef std::vector<OSQPFloat> V;
typedef std::vector<OSQPInt> VI;
typedef std::vector<ld> VL;

struct Csc {           // compressed columns, rows sorted
  int m = 0, n = 0; VI p, i; V x;
  int nnz() const { return (int)x.size(); }
  OSQPCscMatrix view() const;     // shares the arrays
};
struct Pattern;        // forward
Csc csc_from_dense(int m, int n, const std::vector<double>& d, const std::vector<char>& pat, bool upper);
VL mulA(const Csc& A, const VL& x);        // A x
VL mulAt(const Csc& A, const VL& y);       // A' y
VL mulP(const Csc& P, const VL& x);        // symmetric from upper triangle
VL toL(const V& v); V toF(const VL& v);
ld ninf(const VL& v); ld dot(const VL& a, const VL& b);
std::vector<double> dense(const Csc& A);            // row-major m*n
std::vector<double> denseSym(const Csc& P);         // row-major n*n
bool is_inf_bound(double b);

enum Kind { K_KKT, K_FEAS, K_PINF, K_DINF, K_LP, K_ANY };
struct Prob {
  int n = 1, m = 0; Csc P, A; V q, l, u;
  Kind kind = K_ANY; bool hasOpt = false, uniqX = false, uniqY = false; double margin = 0; bool strict = false;
  VL xs, ys;                 // known optimum
  VL x0; double slack = 0;   // a feasible point and its smallest slack (K_FEAS)
  VL cert;                   // known certificate (PINF: y-space, DINF: x-space)
  double scl = 1;            // crude size of the data
};
struct GenOpt {
  int nmax = 8, mmax = 10; int nmin = 1;
  bool well = false;         // well scaled, margins bounded away from zero
  bool pd = false;           // strictly convex
  bool scaleRows = true;     // allow badly scaled rows/columns
  bool eqOnly = false;
  int mmin = 0;
};
Prob gen_kkt(Src& s, const GenOpt& o);
Prob gen_feas(Src& s, const GenOpt& o);
Prob gen_pinf(Src& s, const GenOpt& o);
Prob gen_dinf(Src& s, const GenOpt& o);
Prob gen_lp(Src& s, const GenOpt& o);
Prob gen_any(Src& s, const GenOpt& o);      // one of the above
double gval(Src& s, bool well);             // nonzero entry
double gscale(Src& s);                      // positive factor over several decades
double ginf(Src& s);                        // a value that means +infinity
Csc gen_P(Src& s, int n, bool pd, bool well);
Csc gen_A(Src& s, int m, int n, bool well);
void log_prob(Ctx& c, const Prob& p);
double min_eig(const std::vector<double>& S, int n);   // Jacobi
std::vector<double> eigs(const std::vector<double>& S, int n);
bool solve_dense(std::vector<ld> A, VL b, int n, VL& x); // Gaussian elimination, partial pivoting

OSQPSettings defaults();          // library defaults, silent
struct SetOpt { bool linsys = true, tol = true, timed = false, scaledTerm = true, limits = true, polish = true, wild = true; };
// length of a history: mostly short, now and then long
inline int tail_len(Src& s, int lo, int hi) { int k = s.range(lo, hi); if (s.chance(1, 12)) k += s.range(1, 14); return k; }
OSQPSettings gen_settings(Src& s, const SetOpt& o);
void log_settings(Ctx& c, const OSQPSettings& st);

struct Result {
  int flag = 0; OSQPInfo info; V x, y, pc, dc; bool hasSol = false;
  int st() const { return (int)info.status_val; }
};
bool st_solved(int st); bool st_pinf(int st); bool st_dinf(int st); bool st_hassol(int st);
const char* st_name(int st);

struct Osqp {      // owns the solver; every array handed over is a private heap copy, released on request
  OSQPSolver* s = nullptr; int setup_flag = -1; int n = 0, m = 0; bool carry = false;   // carry: a warm start or changed bounds may have left a multiplier on the free side of a row
  Osqp() {} Osqp(const Osqp&) = delete;
  Osqp(const Prob& p, const OSQPSettings& st) { setup(p, st); }
  ~Osqp() { cleanup(); }
  int setup(const Prob& p, const OSQPSettings& st);
  void cleanup() { if (s) { osqp_cleanup(s); s = nullptr; } }
  int solve() { return (int)osqp_solve(s); }
  Result run();
  Result get();                     // current result without solving
  int upd_q(const V& q) { return (int)osqp_update_data_vec(s, q.data(), nullptr, nullptr); }
  int upd_vec(const V* q, const V* l, const V* u) { return (int)osqp_update_data_vec(s, q ? q->data() : nullptr, l ? l->data() : nullptr, u ? u->data() : nullptr); }
};

// ---- recomputation for the caller's data ----
struct Resid { ld pdist, dres, xPx, qx, sup, pobj, dobj, gap, nAx, nAty, nPx, nq; VL Ax; ld aAx, aAty, aPx; /* largest sums of absolute terms: what rounding is relative to */ };
Resid residuals(const Prob& p, const V& x, const V& y);
// Independent equilibration of the problem (the documented modified Ruiz procedure); `edge` when a norm falls on the
// threshold below which it is ignored, where rounding alone decides
void scaling_ref(const Prob& p, int iters, VL& D, VL& E, ld& c, bool& edge, bool triu = true);   // triu: norms of the stored (upper) part of P, as the code does
bool scaling_edge(const Prob& p, int iters);   // under either reading of the norms
// Private-state observation (optional; returns false when not available)
bool peek_scaling(OSQPSolver* s, V& D, V& E, V& Dinv, V& Einv, double& c, double& cinv);
bool peek_z(OSQPSolver* s, V& z);
bool peek_rho(OSQPSolver* s, V& rho);
bool peek_data(OSQPSolver* s, V& q, V& l, V& u);
bool peek_mats(OSQPSolver* s, Csc& P, Csc& A);
