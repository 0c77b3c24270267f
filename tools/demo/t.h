/* small helpers for the demonstrations */
#include "osqp.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef OSQPFloat F; typedef OSQPInt I;
typedef struct { I n, m; OSQPCscMatrix P, A; F *q, *l, *u; } QP;
/* dense row-major input; exact zeros are not stored; P: upper triangle */
static OSQPCscMatrix csc(I m, I n, const F *d, int up) {
  OSQPCscMatrix M; F *x = malloc((m*n+1)*sizeof(F)); I *r = malloc((m*n+1)*sizeof(I)), *p = malloc((n+1)*sizeof(I)), k = 0;
  for (I j = 0; j < n; j++) { p[j] = k; for (I i = 0; i < m; i++) if ((!up || i <= j) && d[i*n+j] != 0) { x[k] = d[i*n+j]; r[k++] = i; } } p[n] = k;
  OSQPCscMatrix_set_data(&M, m, n, k, x, r, p); return M;
}
static QP qp(I n, I m, const F *P, const F *q, const F *A, const F *l, const F *u) {
  QP z; z.n = n; z.m = m; z.P = csc(n, n, P, 1); z.A = csc(m, n, A, 0);
  z.q = malloc(n*sizeof(F)); memcpy(z.q, q, n*sizeof(F)); z.l = malloc((m+1)*sizeof(F)); memcpy(z.l, l, m*sizeof(F)); z.u = malloc((m+1)*sizeof(F)); memcpy(z.u, u, m*sizeof(F)); return z;
}
static OSQPSettings quiet(void) { OSQPSettings s; memset(&s, 0, sizeof s); osqp_set_default_settings(&s); s.verbose = 0; return s; }
static OSQPSolver *setup(QP *z, OSQPSettings *s) { OSQPSolver *o = NULL; I e = osqp_setup(&o, &z->P, z->q, &z->A, z->l, z->u, z->m, z->n, s); if (e) { printf("setup error %d\n", (int)e); return NULL; } return o; }
#define REQUIRE(c, ...) do { if (!(c)) { printf("FAIL: " __VA_ARGS__); printf("\n"); exit(1); } } while (0)
