/*@vc
prop C03
src raii.c
func raii_array_new raii_array_free raii_array_init raii_array_reset
stub raii_destroy calloc_full
unwind 2
doc an array made in a scope: empty, its header owned by the scope (calloc_full, see c03_alloc), registered with the function that frees the elements; that function frees the block of the elements exactly once and leaves the array empty, so that a second run, or one on an array that never grew, frees nothing
@*/
#include "vc.h"
#include "raii.h"
void raii_destroy(void) { }
static memory_t M; static raii_array_t A; static func_t rel; static int nm, nfree; static char blk[8];
void *calloc_full(memory_t *scope, int count, size_t size, func_t func) { CHECK(scope == &M && nm == 0, "in the scope"); CHECK(count >= 1 && size >= sizeof A, "room for the array"); nm++; rel = func; return &A; }
void vc_free(void *p) { if (p) { CHECK(p == blk && nfree == 0, "the elements are freed once"); nfree++; } }
#include "src_raii.c"
void harness(void)
{
    raii_array_t *a = raii_array_new(&M);
    CHECK(a == &A && nm == 1 && A.base == NULL && A.elements == 0, "an empty array"); CHECK(rel != NULL, "registered for release");
    bool grown = nd_bool(); if (grown) { A.base = blk; A.elements = nd_size(); }
    rel(a);
    CHECK(nfree == grown && A.base == NULL && A.elements == 0, "released and empty"); if (grown) REACH("released");
    rel(a); CHECK(nfree == grown, "a second run frees nothing"); REACH("twice");
}
