/*@vc
prop C14
src raii.c
func is_str_in
stub strpos
unwind 2
doc is_str_in over the contract of strpos
@*/
#include "vc.h"
#include "raii.h"
static char A[2], B[2]; static int pos;
int strpos(const char *t, char *p)
{ CHECK(t == A && p == B, "strpos gets the arguments"); return pos; }
#include "src_raii.c"
void harness(void)
{
    pos = nd_i32(); ASSUME(pos >= -1);
    CHECK(is_str_in(A, B) == (pos != -1), "is_str_in exactly when the pattern occurs");
    REACH("is_str_in");
}
