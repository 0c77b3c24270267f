#define _GNU_SOURCE
#include "env.h"
#include "vmem.h"
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>

#define CAP (1u << 16)
static void*  tab[CAP];
static size_t tsz[CAP];
static long live, bad, count, failed;
static long failk; static int sticky;
static int fill = 0xA5;
#define TOMB ((void*)1)

static unsigned hsh(void* p) { uint64_t x = (uint64_t)(uintptr_t)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15ull; return (unsigned)(x >> 48) & (CAP - 1); }
static unsigned used[CAP]; static unsigned nused;   /* slots written since the last reset */
static void ins(void* p, size_t s) {
  unsigned h = hsh(p);
  for (unsigned k = 0; k < CAP; k++, h = (h + 1) & (CAP - 1)) if (tab[h] == 0 || tab[h] == TOMB) { if (tab[h] == 0) used[nused++] = h; tab[h] = p; tsz[h] = s; live++; return; }
  fprintf(stderr, "vmem: ledger full\n"); abort();
}
static int del(void* p) {
  unsigned h = hsh(p);
  for (unsigned k = 0; k < CAP && tab[h]; k++, h = (h + 1) & (CAP - 1)) if (tab[h] == p) { tab[h] = TOMB; live--; return 1; }
  return 0;
}
/* MKL objects (sparse handles, Pardiso instances) hold memory of MKL's own: each created one counts as live until released */
#define HCAP 65536
static void* hnd[HCAP]; static int nhnd;
static void hadd(void* p) { for (int i = 0; i < nhnd; i++) if (hnd[i] == p) return; if (nhnd < HCAP) { hnd[nhnd++] = p; live++; } }
static void hdel(void* p) { for (int i = nhnd - 1; i >= 0; i--) if (hnd[i] == p) { hnd[i] = hnd[--nhnd]; live--; return; } }
void vmem_reset(void) { nhnd = 0; for (unsigned k = 0; k < nused; k++) tab[used[k]] = 0; nused = 0; live = bad = count = failed = 0; failk = 0; sticky = 0; }
void vmem_set_fill(int b) { fill = b; }
void vmem_fail_at(long k, int s) { failk = k; sticky = s; count = 0; failed = 0; }
long vmem_count(void) { return count; }
long vmem_failed(void) { return failed; }
long vmem_live(void) { return live; }
long vmem_bad(void) { return bad; }
size_t vmem_first_live_size(void) { for (unsigned h = 0; h < CAP; h++) if (tab[h] && tab[h] != TOMB) return tsz[h]; return 0; }
void __sanitizer_print_stack_trace(void) __attribute__((weak));
static int inject(size_t s) {
  count++;
  if (failk && (count == failk || (sticky && count > failk))) { if (!s) return 0; /* empty requests are not failed */ failed++; if (getenv("VH_BT") && __sanitizer_print_stack_trace) { fprintf(stderr, "injected failure %ld\n", count); __sanitizer_print_stack_trace(); } return 1; }
  return 0;
}
void* vmem_malloc(size_t s) {
  if (inject(s)) return 0;
  void* p = malloc(s);
  if (p) { memset(p, fill, s); ins(p, s); }
  return p;
}
void* vmem_calloc(size_t n, size_t s) {
  if (inject(n * s)) return 0;
  void* p = calloc(n, s);
  if (p) ins(p, n * s);
  return p;
}
void* vmem_realloc(void* q, size_t s) {
  if (inject(s)) return 0;
  if (q && !del(q)) { bad++; fprintf(stderr, "vmem: realloc of unknown pointer\n"); abort(); }
  void* p = realloc(q, s);
  if (p) ins(p, s);
  return p;
}
void vmem_free(void* p) {
  if (!p) return;
  if (!del(p)) {
    bad++;
    fprintf(stderr, "vmem: free of a pointer that is not live\nSUMMARY: bad-free\n");
    abort();
  }
  free(p);
}
/* MKL's allocator (used by the MKL vector/matrix types) goes through the same ledger */
void* __real_MKL_malloc(size_t s, int al);
void* __real_MKL_calloc(size_t n, size_t s, int al);
void* __real_MKL_realloc(void* p, size_t s);
void  __real_MKL_free(void* p);
#ifdef WRAP_MKL
static void* amalloc(size_t s, int al) {
  void* p = 0;
  if (al < (int)sizeof(void*)) al = sizeof(void*);
  if (posix_memalign(&p, (size_t)al, s ? s : 1)) return 0;
  return p;
}
void* __wrap_MKL_malloc(size_t s, int al) {
  if (inject(s)) return 0;
  void* p = amalloc(s, al);
  if (p) { memset(p, fill, s); ins(p, s); }
  return p;
}
void* __wrap_MKL_calloc(size_t n, size_t s, int al) {
  if (inject(n * s)) return 0;
  void* p = amalloc(n * s, al);
  if (p) { memset(p, 0, n * s); ins(p, n * s); }
  return p;
}
void* __wrap_MKL_realloc(void* q, size_t s) { return vmem_realloc(q, s); }
void __wrap_MKL_free(void* p) { vmem_free(p); }
int __real_mkl_sparse_d_create_csc(void** A, int ix, long long r, long long c, void* cs, void* ce, void* ri, void* v);
int __wrap_mkl_sparse_d_create_csc(void** A, int ix, long long r, long long c, void* cs, void* ce, void* ri, void* v) { int f = __real_mkl_sparse_d_create_csc(A, ix, r, c, cs, ce, ri, v); if (!f) hadd(*A); return f; }
int __real_mkl_sparse_destroy(void* A);
int __wrap_mkl_sparse_destroy(void* A) { if (A) hdel(A); return __real_mkl_sparse_destroy(A); }
void __real_PARDISO(void** pt, void* a, void* b, void* c, int* phase, void* e, void* f, void* g, void* h, void* i, void* j, void* k, void* l, void* m, void* n, void* o);
void __wrap_PARDISO(void** pt, void* a, void* b, void* c, int* phase, void* e, void* f, void* g, void* h, void* i, void* j, void* k, void* l, void* m, void* n, void* o) {
  int ph = *phase, st = 0; __real_PARDISO(pt, a, b, c, phase, e, f, g, h, i, j, k, l, m, n, o);
  if (ph == -1) { hdel(pt); return; }
  for (int q = 0; q < 64; q++) st |= pt[q] != 0;
  if (st) hadd(pt);
}
#endif

/* ---- clock ---- */
static int vmode; static double vnow, vstep; static long vcalls, vk; static void (*vfn)(void);
int __real_clock_gettime(clockid_t c, struct timespec* t);
void vclk_real(void) { vmode = 0; vk = 0; vfn = 0; }
void vclk_virtual(double start, double step) { vmode = 1; vnow = start; vstep = step; vcalls = 0; vk = 0; vfn = 0; }
void vclk_set_step(double s) { vstep = s; }
void vclk_advance(double dt) { vnow += dt; }
double vclk_now(void) { return vnow; }
long vclk_calls(void) { return vcalls; }
void vclk_reset_calls(void) { vcalls = 0; }
void vclk_on_call(long k, void (*fn)(void)) { vk = k; vfn = fn; vcalls = 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
  if (!vmode) return __real_clock_gettime(c, t);
  vcalls++; vnow += vstep;
  if (vk && vcalls == vk && vfn) vfn();
  t->tv_sec = (time_t)vnow; 
  t->tv_nsec = (long)((vnow - (double)t->tv_sec) * 1e9);
  if (t->tv_nsec > 999999999L) t->tv_nsec = 999999999L;
  return 0;
}
