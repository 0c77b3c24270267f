// API operations as data: generated against a model of the current problem, applied to a solver,
// and mirrored in the model.  Used by every history-based property.
#pragma once
#include "checks.hpp"
enum OpKind { O_SOLVE, O_VEC, O_MAT, O_SET, O_RHO, O_WARM, O_COLD, O_GET, O_NKINDS };
struct Op {
  OpKind k = O_SOLVE;
  bool hq = false, hl = false, hu = false; V q, l, u;           // O_VEC
  bool hP = false, hA = false, pall = false, aall = false; V Px, Ax; VI Pi, Ai;   // O_MAT
  OSQPSettings st; double rho = 0.1;                            // O_SET, O_RHO
  bool hx = false, hy = false; V x, y;                          // O_WARM
};
struct OpOpt { SetOpt so; int wSolve = 4, wVec = 3, wMat = 2, wSet = 2, wRho = 1, wWarm = 1, wCold = 1, wGet = 1; bool infq = false; bool moderate = false; };
Op gen_op(Src& s, const Prob& cur, const OSQPSettings& base, const OpOpt& o);
Op gen_vec(Src& s, const Prob& cur, bool moderate);
Op gen_mat(Src& s, const Prob& cur, bool moderate);
Op gen_warm(Src& s, const Prob& cur);
int apply_op(Osqp& q, const Op& o, bool poison = false, std::string* wrote = nullptr);   // return code of the call
void model_op(Prob& p, const Op& o);
void log_op(Ctx& c, const Op& o);
const char* op_name(OpKind k);
// compare two results of the same problem run the same way; empty string when equal
std::string diff_results(const Result& a, const Result& b, double rel, double abs, bool iters = true);
// snapshot of everything retrievable
std::string settings_diff(const OSQPSettings& a, const OSQPSettings& b, bool rhoToo = true);
// a bound update refused although it is valid: true when only a one-sided update of a (numerically) tight bound explains it
bool tight_bound(const Prob& cur, const Op& o);
// the failure key for a valid update that was refused
const char* refusal_key(const Prob& cur, const Op& o, const OSQPSettings& st, bool matUpdated);
