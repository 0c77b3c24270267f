/* The public API of one library variant behind precision- and width-neutral types (built per variant into a shared object). */
#ifndef SHIM_H
#define SHIM_H
#define SH_SETTINGS(F) F(linsys_solver) F(allocate_solution) F(verbose) F(profiler_level) F(warm_starting) F(scaling) F(polishing) F(rho) F(rho_is_vec) F(sigma) F(alpha) \
  F(cg_max_iter) F(cg_tol_reduction) F(cg_tol_fraction) F(cg_precond) F(adaptive_rho) F(adaptive_rho_interval) F(adaptive_rho_fraction) F(adaptive_rho_tolerance) \
  F(max_iter) F(eps_abs) F(eps_rel) F(eps_prim_inf) F(eps_dual_inf) F(scaled_termination) F(check_termination) F(check_dualgap) F(time_limit) F(delta) F(polish_refine_iter)
enum { SH_NSET = 30, SH_NINFO = 13 };   /* status, iter, status_polish, obj, dual_obj, prim_res, dual_res, gap, rho_updates, rho_estimate, rel_kkt, primdual_int, rho in the settings */
typedef struct { long long n, m; const long long *Pp, *Pi, *Ap, *Ai; const double *Px, *Ax, *q, *l, *u; } sh_prob;
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  int (*float_bytes)(void); int (*int_bytes)(void);
  long long (*setup)(void** h, const sh_prob*, const double* set);
  long long (*vec)(void* h, const double* q, const double* l, const double* u);
  long long (*mat)(void* h, const double* Px, const long long* Pi, long long pn, const double* Ax, const long long* Ai, long long an);
  long long (*settings)(void* h, const double* set); long long (*rho)(void* h, double rho); long long (*warm)(void* h, const double* x, const double* y); void (*cold)(void* h);
  long long (*solve)(void* h, double* info, double* x, double* y, double* pc, double* dc, char* status);
  void (*get_settings)(void* h, double* set); void (*defaults)(double* set); long long (*caps)(void); const char* (*version)(void); const char* (*errmsg)(int); void (*consts)(double* c);
  void (*cleanup)(void* h);
} sh_api;
const sh_api* sh_get(void);
#ifdef __cplusplus
}
#endif
#endif
