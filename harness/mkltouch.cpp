// Load and initialise the MKL run-time once before workers are forked.
#include <stdlib.h>
extern "C" double cblas_dnrm2(long long, const double*, long long);
extern "C" void pardisoinit(void*, const long long*, long long*);
void mkl_touch() { double x[2] = {3, 4}; volatile double r = cblas_dnrm2(2, x, 1); (void)r; void* pt[64]; for (auto& p : pt) p = 0; long long ip[64], mt = -2; pardisoinit(pt, &mt, ip); }
