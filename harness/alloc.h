/* Allocation on separate objects, so overruns are visible. */
#ifndef ALLOC_H
#define ALLOC_H
#include <stddef.h>
void *SX_OVERRIDE (malloc) (size_t n) { return sx_malloc (n); }
void SX_OVERRIDE (free) (void *p) { sx_free (p); }
#endif
