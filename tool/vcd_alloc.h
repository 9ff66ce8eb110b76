#ifndef VCD_ALLOC_H
#define VCD_ALLOC_H
#include <stddef.h>
void *vcd_malloc(size_t); void *vcd_calloc(size_t, size_t); void *vcd_realloc(void *, size_t);
void vcd_free(void *); void *vcd_memalign(size_t, size_t);
#endif
