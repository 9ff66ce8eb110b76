/*@vc
prop C13
src raii.c
func is_str_eq is_str_empty is_empty
stub simd_strcmp
unwind 2
doc is_str_eq and is_str_empty over the contract of simd_strcmp (zero exactly for equal strings), null arguments included
@*/
#include "vc.h"
#include "raii.h"
static char A[2], B[2]; static bool equal, a_empty;
int simd_strcmp(const char *a, const char *b)
{
    CHECK(a != NULL && b != NULL, "simd_strcmp precondition: no null pointer");
    int r = nd_i32();
    if (a == A && b == B || a == B && b == A) { ASSUME((r == 0) == equal); return r; }
    if (a == A && b != B && b[0] == 0) { ASSUME((r == 0) == a_empty); return r; }
    CHECK(0, "simd_strcmp is called on the arguments");
    return r;
}
#include "src_raii.c"
void harness(void)
{
    equal = nd_bool(); a_empty = nd_bool();
    bool na = nd_bool(), nb = nd_bool();
    CHECK(is_str_eq(na ? NULL : A, nb ? NULL : B) == (!na && !nb && equal), "is_str_eq exactly for equal non-null strings");
    CHECK(is_str_empty(na ? NULL : A) == (!na && a_empty), "is_str_empty exactly for the empty string");
    CHECK(is_empty(na ? NULL : A) == na, "is_empty exactly for null");
    REACH("string predicates");
}
