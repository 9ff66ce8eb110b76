/*@vc
prop C13
src swar.c
func simd_strcmp
stub simd_strlen
nloops simd_strcmp 3
loop simd_strcmp 0
 havoc current_block
 inv current_block <= fast && (d > l0 && d > l1 || d >= current_block * 8)
 begin inst(current_block);
 dec (long)(fast - current_block)
unwind 10
doc simd_strcmp on strings of any lengths: sign of the difference at the first differing byte d, zero when there is none; over the contract of simd_strlen
assume the words a string occupies are readable
@*/
#include "vc.h"
#include "raii.h"
static size_t l0, l1, d; static char *A, *B;
size_t simd_strlen(const char *s)
{ CHECK(s == A || s == B, "simd_strlen precondition: one of the strings"); return s == A ? l0 : l1; }
/* the preconditions "bytes before the length are not zero" and "bytes before d are equal", at one block */
static void inst(size_t blk)
{
    int k; size_t i;
    for (k = 0; k < 8; k++) {
        i = blk * 8 + k;
        if (i < l0) ASSUME(A[i] != 0);
        if (i < l1) ASSUME(B[i] != 0);
        if (i < d && i <= l0 && i <= l1) ASSUME(A[i] == B[i]);
    }
}
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    l0 = nd_size(); l1 = nd_size(); d = nd_size();
    ASSUME(l0 < ((size_t)1 << 40) && l1 < ((size_t)1 << 40));
    A = vc_new(l0 / 8 * 8 + 8, 0); B = vc_new(l1 / 8 * 8 + 8, 0);
    ASSUME(A != NULL && B != NULL);
    vc_reg(A, l0 / 8 * 8 + 8); vc_reg(B, l1 / 8 * 8 + 8);
    ASSUME(A[l0] == 0 && B[l1] == 0);
    size_t m = l0 < l1 ? l0 : l1;
    /* d: first difference, or past both ends when the strings are equal */
    if (d <= m) ASSUME(A[d] != B[d]); else ASSUME(l0 == l1 && d == l0 + 1);
    inst(m / 8);
    int r = simd_strcmp(A, B);
    if (d > m) CHECK(r == 0, "equal strings compare equal");
    else CHECK((unsigned char)A[d] < (unsigned char)B[d] ? r < 0 : r > 0, "sign of the first difference");
    REACH("simd_strcmp returns");
    if (d > 100 && d <= m) REACH("late difference");
}
