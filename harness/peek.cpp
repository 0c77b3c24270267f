// Optional observation of solver internals.  If the private layout changes this
// file is replaced by peek_stub.cpp and the sub-checks that use it are skipped.
#include "model.hpp"
extern "C" {
#include "types.h"
#include "lin_alg.h"
}
static void raw(V& o, OSQPVectorf* v) { o.resize(OSQPVectorf_length(v)); if (!o.empty()) OSQPVectorf_to_raw(o.data(), v); }
bool peek_scaling(OSQPSolver* s, V& D, V& E, V& Di, V& Ei, double& c, double& ci) {
  if (!s || !s->work || !s->work->scaling || !s->settings->scaling) return false;
  raw(D, s->work->scaling->D); raw(E, s->work->scaling->E); raw(Di, s->work->scaling->Dinv); raw(Ei, s->work->scaling->Einv); c = s->work->scaling->c; ci = s->work->scaling->cinv; return true;
}
bool peek_z(OSQPSolver* s, V& z) { if (!s || !s->work) return false; raw(z, s->work->z); return true; }
bool peek_rho(OSQPSolver* s, V& r) { if (!s || !s->work || !s->settings->rho_is_vec) return false; raw(r, s->work->rho_vec); return true; }
bool peek_data(OSQPSolver* s, V& q, V& l, V& u) { if (!s || !s->work || !s->work->data) return false; raw(q, s->work->data->q); raw(l, s->work->data->l); raw(u, s->work->data->u); return true; }
bool peek_mats(OSQPSolver* s, Csc& P, Csc& A) {
  if (!s || !s->work || !s->work->data) return false; int k = 0;
  for (OSQPMatrix* M : {s->work->data->P, s->work->data->A}) { Csc& o = k++ ? A : P; o.m = (int)OSQPMatrix_get_m(M); o.n = (int)OSQPMatrix_get_n(M); OSQPInt* p = OSQPMatrix_get_p(M); OSQPInt* i = OSQPMatrix_get_i(M); OSQPFloat* x = OSQPMatrix_get_x(M); o.p.assign(p, p + o.n + 1); int nz = (int)o.p[o.n]; o.i.assign(i, i + nz); o.x.assign(x, x + nz); }
  return true; }
