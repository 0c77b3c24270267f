/* Generated (embedded) code behind precision- and width-neutral types. */
#ifndef CGSHIM_H
#define CGSHIM_H
#include "shim.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  int mode, float_bytes, int_bytes, count;
  void (*dims)(int k, long long* m, long long* n);
  long long (*vec)(int k, const double* q, const double* l, const double* u);
  long long (*mat)(int k, const double* Px, const long long* Pi, long long pn, const double* Ax, const long long* Ai, long long an);   /* mode 2 */
  long long (*rho)(int k, double rho);                                                                                               /* mode 2 */
  long long (*settings)(int k, const double* set);
  long long (*warm)(int k, const double* x, const double* y); void (*cold)(int k);
  long long (*solve)(int k, double* info, double* x, double* y, char* status);
  long long (*get)(int k, double* x, double* y, double* pc, double* dc);
  void (*get_settings)(int k, double* set);
  void (*toc)(double seconds, double step); void (*interrupt)(long after);   /* user-supplied clock and interrupt hook, when enabled */
  long (*listening)(void);
  const char* (*errmsg)(int); const char* (*version)(void); long long (*caps)(void);
} cg_api;
const cg_api* cg_get(void);
#ifdef __cplusplus
}
#endif
#endif
