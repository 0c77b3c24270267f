#include "osqp.h"
#include "cgshim.h"
#include <stdlib.h>
#include <string.h>
extern OSQPSolver* const cg_tab[]; extern const int cg_n;
static double cg_now, cg_step; static long cg_intr, cg_lis;
#ifdef OSQP_ENABLE_PROFILING
/* the generated code leaves the clock to its user */
#include "timing.h"
void osqp_tic(OSQPTimer* t) { (void)t; cg_now = 0; }
OSQPFloat osqp_toc(OSQPTimer* t) { (void)t; cg_now += cg_step; return (OSQPFloat)cg_now; }
#endif
#ifdef OSQP_ENABLE_INTERRUPT
#include "interrupt.h"
void osqp_start_interrupt_listener(void) { cg_lis++; } void osqp_end_interrupt_listener(void) { cg_lis--; } int osqp_is_interrupted(void) { return cg_intr > 0 && --cg_intr == 0; }
#endif
static OSQPFloat* fv(const double* v, long long n) { OSQPFloat* r; long long i; if (!v) return NULL; r = malloc((size_t)(n > 0 ? n : 1) * sizeof *r); for (i = 0; i < n; i++) r[i] = (OSQPFloat)v[i]; return r; }
static OSQPInt* iv(const long long* v, long long n) { OSQPInt* r; long long i; if (!v) return NULL; r = malloc((size_t)(n > 0 ? n : 1) * sizeof *r); for (i = 0; i < n; i++) r[i] = (OSQPInt)v[i]; return r; }
static OSQPSolver* S(int k) { return cg_tab[k]; }
static void dims(int k, long long* m, long long* n) { OSQPInt a = 0, b = 0; osqp_get_dimensions(S(k), &a, &b); *m = a; *n = b; }
static long long vec(int k, const double* q, const double* l, const double* u) { long long m, n, f; OSQPFloat *a, *b, *c; dims(k, &m, &n); a = fv(q, n); b = fv(l, m); c = fv(u, m); f = (long long)osqp_update_data_vec(S(k), a, b, c); free(a); free(b); free(c); return f; }
static long long settings(int k, const double* v) {
  OSQPSettings t = *S(k)->settings; 
  t.verbose = (OSQPInt)v[2]; t.profiler_level = (OSQPInt)v[3]; t.warm_starting = (OSQPInt)v[4]; t.polishing = (OSQPInt)v[6]; t.alpha = (OSQPFloat)v[10];
  t.cg_max_iter = (OSQPInt)v[11]; t.cg_tol_reduction = (OSQPInt)v[12]; t.cg_tol_fraction = (OSQPFloat)v[13]; t.cg_precond = (osqp_precond_type)(int)v[14];
  t.max_iter = (OSQPInt)v[19]; t.eps_abs = (OSQPFloat)v[20]; t.eps_rel = (OSQPFloat)v[21]; t.eps_prim_inf = (OSQPFloat)v[22]; t.eps_dual_inf = (OSQPFloat)v[23]; t.scaled_termination = (OSQPInt)v[24]; t.check_termination = (OSQPInt)v[25]; t.check_dualgap = (OSQPInt)v[26]; t.time_limit = (OSQPFloat)v[27]; t.delta = (OSQPFloat)v[28]; t.polish_refine_iter = (OSQPInt)v[29];
  return (long long)osqp_update_settings(S(k), &t);
}
#if OSQP_EMBEDDED_MODE == 2
static long long sh_mat(int k, const double* Px, const long long* Pi, long long pn, const double* Ax, const long long* Ai, long long an) { OSQPFloat *a = fv(Px, pn), *b = fv(Ax, an); OSQPInt *i = iv(Pi, pn), *j = iv(Ai, an); long long f = (long long)osqp_update_data_mat(S(k), a, i, (OSQPInt)pn, b, j, (OSQPInt)an); free(a); free(b); free(i); free(j); return f; }
static long long sh_rho(int k, double r) { return (long long)osqp_update_rho(S(k), (OSQPFloat)r); }
#else
#define sh_mat NULL
#define sh_rho NULL
#endif
static long long warm(int k, const double* x, const double* y) { long long m, n, f; OSQPFloat *a, *b; dims(k, &m, &n); a = fv(x, n); b = fv(y, m); f = (long long)osqp_warm_start(S(k), a, b); free(a); free(b); return f; }
static void cold(int k) { osqp_cold_start(S(k)); }
static long long solve(int k, double* o, double* x, double* y, char* status) {
  long long m, n, i, f = (long long)osqp_solve(S(k)); OSQPInfo* w = S(k)->info; OSQPSolution* r = S(k)->solution; double v[SH_NINFO];
  v[0] = (double)w->status_val; v[1] = (double)w->iter; v[2] = (double)w->status_polish; v[3] = w->obj_val; v[4] = w->dual_obj_val; v[5] = w->prim_res; v[6] = w->dual_res; v[7] = w->duality_gap; v[8] = (double)w->rho_updates; v[9] = w->rho_estimate; v[10] = w->rel_kkt_error; v[11] = w->primdual_int; v[12] = S(k)->settings->rho;
  memcpy(o, v, sizeof v); strncpy(status, w->status, 31); status[31] = 0; dims(k, &m, &n); for (i = 0; i < n; i++) x[i] = r->x[i]; for (i = 0; i < m; i++) y[i] = r->y[i]; return f;
}
static long long get(int k, double* x, double* y, double* pc, double* dc) {
  long long m, n, i, f; OSQPSolution t; dims(k, &m, &n); t.x = malloc((size_t)(n + 1) * sizeof(OSQPFloat)); t.y = malloc((size_t)(m + 1) * sizeof(OSQPFloat)); t.prim_inf_cert = malloc((size_t)(m + 1) * sizeof(OSQPFloat)); t.dual_inf_cert = malloc((size_t)(n + 1) * sizeof(OSQPFloat));
  for (i = 0; i < n; i++) t.x[i] = t.dual_inf_cert[i] = 0; for (i = 0; i < m; i++) t.y[i] = t.prim_inf_cert[i] = 0;
  f = (long long)osqp_get_solution(S(k), &t); for (i = 0; i < n; i++) { x[i] = t.x[i]; dc[i] = t.dual_inf_cert[i]; } for (i = 0; i < m; i++) { y[i] = t.y[i]; pc[i] = t.prim_inf_cert[i]; } free(t.x); free(t.y); free(t.prim_inf_cert); free(t.dual_inf_cert); return f;
}
static void get_settings(int k, double* v) { OSQPSettings* t = S(k)->settings; int i = 0;
#define F(f) v[i++] = (double)t->f;
  SH_SETTINGS(F)
#undef F
}
static void toc(double s, double d) { cg_now = s; cg_step = d; }
static void interrupt(long after) { cg_intr = after; }
static long listening(void) { return cg_lis; }
static const char* errmsg(int e) { return osqp_error_message(e); }
static long long caps(void) { return (long long)osqp_capabilities(); }
static cg_api api = {OSQP_EMBEDDED_MODE, (int)sizeof(OSQPFloat), (int)sizeof(OSQPInt), 0, dims, vec, sh_mat, sh_rho, settings, warm, cold, solve, get, get_settings, toc, interrupt, listening, errmsg, osqp_version, caps};
__attribute__((visibility("default"))) const cg_api* cg_get(void) { api.count = cg_n; return &api; }
