#include "model.hpp"
void warm_up() {
#ifdef OSQP_ALGEBRA_MKL
  // load the MKL run-time before workers are forked
  OSQPFloat Px[1] = {1}, q[1] = {1}, Ax[1] = {1}, l[1] = {0}, u[1] = {1}; OSQPInt Pi[1] = {0}, Pp[2] = {0, 1}; (void)Px; (void)q; (void)Ax; (void)l; (void)u; (void)Pi; (void)Pp;
  extern void mkl_touch(); mkl_touch();
#endif
}
