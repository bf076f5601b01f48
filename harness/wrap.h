/* Counting allocator: every malloc/calloc/realloc/free of the library goes through here (object-like macros, so that
   function pointers initialised with malloc are redirected as well). */
#ifndef QPV_WRAP_H
#define QPV_WRAP_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <math.h>
void *qpv_malloc(size_t); void *qpv_calloc(size_t, size_t); void *qpv_realloc(void *, size_t); void qpv_free(void *);
#define malloc qpv_malloc
#define calloc qpv_calloc
#define realloc qpv_realloc
#define free qpv_free
#endif
