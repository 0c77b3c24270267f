/* Custom memory hook header: handed to the library through its own
   OSQP_CUSTOM_MEMORY build option, so no change to /repo is needed. */
#ifndef VMEM_H
#define VMEM_H
#include <stddef.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vmem_malloc(size_t s);
void* vmem_calloc(size_t n, size_t s);
void* vmem_realloc(void* p, size_t s);
void  vmem_free(void* p);
#ifdef __cplusplus
}
#endif
#define c_malloc  vmem_malloc
#define c_calloc  vmem_calloc
#define c_realloc vmem_realloc
#define c_free    vmem_free
#endif
