#include "osqp.h"
#include "shim.h"
#include <stdlib.h>
#include <string.h>
void* vmem_malloc(size_t s) { return malloc(s); } void* vmem_calloc(size_t n, size_t s) { return calloc(n, s); } void* vmem_realloc(void* p, size_t s) { return realloc(p, s); } void vmem_free(void* p) { free(p); }
typedef struct { OSQPSolver* s; OSQPInt n, m; } H;
static OSQPFloat* fv(const double* v, long long n) { OSQPFloat* r; long long i; if (!v) return NULL; r = malloc((size_t)(n > 0 ? n : 1) * sizeof *r); for (i = 0; i < n; i++) r[i] = (OSQPFloat)v[i]; return r; }
static OSQPInt* iv(const long long* v, long long n) { OSQPInt* r; long long i; if (!v) return NULL; r = malloc((size_t)(n > 0 ? n : 1) * sizeof *r); for (i = 0; i < n; i++) r[i] = (OSQPInt)v[i]; return r; }
static void to_set(OSQPSettings* t, const double* v) {
  t->linsys_solver = (enum osqp_linsys_solver_type)(int)v[0];
  t->allocate_solution = (OSQPInt)v[1]; t->verbose = (OSQPInt)v[2]; t->profiler_level = (OSQPInt)v[3]; t->warm_starting = (OSQPInt)v[4]; t->scaling = (OSQPInt)v[5]; t->polishing = (OSQPInt)v[6]; t->rho = (OSQPFloat)v[7]; t->rho_is_vec = (OSQPInt)v[8]; t->sigma = (OSQPFloat)v[9]; t->alpha = (OSQPFloat)v[10];
  t->cg_max_iter = (OSQPInt)v[11]; t->cg_tol_reduction = (OSQPInt)v[12]; t->cg_tol_fraction = (OSQPFloat)v[13]; t->cg_precond = (osqp_precond_type)(int)v[14]; t->adaptive_rho = (OSQPInt)v[15]; t->adaptive_rho_interval = (OSQPInt)v[16]; t->adaptive_rho_fraction = (OSQPFloat)v[17]; t->adaptive_rho_tolerance = (OSQPFloat)v[18];
  t->max_iter = (OSQPInt)v[19]; t->eps_abs = (OSQPFloat)v[20]; t->eps_rel = (OSQPFloat)v[21]; t->eps_prim_inf = (OSQPFloat)v[22]; t->eps_dual_inf = (OSQPFloat)v[23]; t->scaled_termination = (OSQPInt)v[24]; t->check_termination = (OSQPInt)v[25]; t->check_dualgap = (OSQPInt)v[26]; t->time_limit = (OSQPFloat)v[27]; t->delta = (OSQPFloat)v[28]; t->polish_refine_iter = (OSQPInt)v[29];
}
static void from_set(const OSQPSettings* t, double* v) { int k = 0;
#define F(f) v[k++] = (double)t->f;
  SH_SETTINGS(F)
#undef F
}
static int fb(void) { return (int)sizeof(OSQPFloat); }
static int ib(void) { return (int)sizeof(OSQPInt); }
static long long setup(void** h, const sh_prob* p, const double* set) {
  H* z = calloc(1, sizeof *z); OSQPSettings t; OSQPCscMatrix P, A; long long f; OSQPFloat *Px = fv(p->Px, p->Pp[p->n]), *Ax = fv(p->Ax, p->Ap[p->n]), *q = fv(p->q, p->n), *l = fv(p->l, p->m), *u = fv(p->u, p->m); OSQPInt *Pp = iv(p->Pp, p->n + 1), *Pi = iv(p->Pi, p->Pp[p->n]), *Ap = iv(p->Ap, p->n + 1), *Ai = iv(p->Ai, p->Ap[p->n]);
  memset(&t, 0, sizeof t); osqp_set_default_settings(&t); to_set(&t, set); OSQPCscMatrix_set_data(&P, (OSQPInt)p->n, (OSQPInt)p->n, (OSQPInt)p->Pp[p->n], Px, Pi, Pp); OSQPCscMatrix_set_data(&A, (OSQPInt)p->m, (OSQPInt)p->n, (OSQPInt)p->Ap[p->n], Ax, Ai, Ap);
  f = (long long)osqp_setup(&z->s, &P, q, &A, l, u, (OSQPInt)p->m, (OSQPInt)p->n, &t); z->n = (OSQPInt)p->n; z->m = (OSQPInt)p->m; free(Px); free(Ax); free(q); free(l); free(u); free(Pp); free(Pi); free(Ap); free(Ai);
  if (f) { if (z->s) osqp_cleanup(z->s); free(z); z = NULL; } *h = z; return f;
}
static long long vec(void* h, const double* q, const double* l, const double* u) { H* z = h; OSQPFloat *a = fv(q, z->n), *b = fv(l, z->m), *c = fv(u, z->m); long long f = (long long)osqp_update_data_vec(z->s, a, b, c); free(a); free(b); free(c); return f; }
static long long mat(void* h, const double* Px, const long long* Pi, long long pn, const double* Ax, const long long* Ai, long long an) { H* z = h; OSQPFloat *a = fv(Px, pn), *b = fv(Ax, an); OSQPInt *i = iv(Pi, pn), *j = iv(Ai, an); long long f = (long long)osqp_update_data_mat(z->s, a, i, (OSQPInt)pn, b, j, (OSQPInt)an); free(a); free(b); free(i); free(j); return f; }
static long long settings(void* h, const double* set) { H* z = h; OSQPSettings t = *z->s->settings; to_set(&t, set); return (long long)osqp_update_settings(z->s, &t); }
static long long rho(void* h, double r) { return (long long)osqp_update_rho(((H*)h)->s, (OSQPFloat)r); }
static long long warm(void* h, const double* x, const double* y) { H* z = h; OSQPFloat *a = fv(x, z->n), *b = fv(y, z->m); long long f = (long long)osqp_warm_start(z->s, a, b); free(a); free(b); return f; }
static void cold(void* h) { osqp_cold_start(((H*)h)->s); }
static long long solve(void* h, double* o, double* x, double* y, double* pc, double* dc, char* status) {
  H* z = h; long long f = (long long)osqp_solve(z->s), i; OSQPInfo* w = z->s->info; OSQPSolution* r = z->s->solution; double v[] = {(double)w->status_val, (double)w->iter, (double)w->status_polish, w->obj_val, w->dual_obj_val, w->prim_res, w->dual_res, w->duality_gap, (double)w->rho_updates, w->rho_estimate, w->rel_kkt_error, w->primdual_int, z->s->settings->rho};
  memcpy(o, v, sizeof v); strncpy(status, w->status, 31); status[31] = 0; for (i = 0; i < z->n; i++) { x[i] = r->x[i]; dc[i] = r->dual_inf_cert[i]; } for (i = 0; i < z->m; i++) { y[i] = r->y[i]; pc[i] = r->prim_inf_cert[i]; } return f;
}
static void get_settings(void* h, double* set) { from_set(((H*)h)->s->settings, set); }
static void defs(double* set) { OSQPSettings t; memset(&t, 0, sizeof t); osqp_set_default_settings(&t); from_set(&t, set); }
static long long caps(void) { return (long long)osqp_capabilities(); }
static const char* errmsg(int e) { return osqp_error_message(e); }
static void consts(double* c) { c[0] = OSQP_INFTY; c[1] = OSQP_MAX_SCALING; c[2] = OSQP_MIN_SCALING; c[3] = OSQP_RHO_MAX; c[4] = OSQP_RHO_MIN; c[5] = OSQP_RHO_TOL; c[6] = OSQP_RHO_EQ_OVER_RHO_INEQ; }
static void cleanup(void* h) { H* z = h; osqp_cleanup(z->s); free(z); }
static const sh_api api = {fb, ib, setup, vec, mat, settings, rho, warm, cold, solve, get_settings, defs, caps, osqp_version, errmsg, consts, cleanup};
__attribute__((visibility("default"))) const sh_api* sh_get(void) { return &api; }
