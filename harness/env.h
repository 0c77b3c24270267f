/* Controlled environment: allocation ledger + fault injection, virtual clock. */
#ifndef ENV_H
#define ENV_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* ---- memory ---- */
void   vmem_reset(void);            /* new epoch: forget everything */
void   vmem_set_fill(int byte);     /* fill pattern for fresh malloc memory */
void   vmem_fail_at(long k, int sticky); /* k-th allocation from now (1-based) fails; sticky: all after too; 0 = off */
long   vmem_count(void);            /* allocations attempted since vmem_fail_at/reset */
long   vmem_failed(void);           /* injected failures so far */
long   vmem_live(void);             /* live blocks */
long   vmem_bad(void);              /* frees of unknown pointers */
size_t vmem_first_live_size(void);
/* ---- clock ---- */
void   vclk_real(void);
void   vclk_virtual(double start, double step); /* every reading advances by step */
void   vclk_set_step(double step);
void   vclk_advance(double dt);
double vclk_now(void);
long   vclk_calls(void);
void   vclk_reset_calls(void);
void   vclk_on_call(long k, void (*fn)(void)); /* run fn at the k-th reading from now (1-based), 0 = off */
#ifdef __cplusplus
}
#endif
#endif
