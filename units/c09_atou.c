/*@vc
prop C09
src swar.c
func simd_atou
stub atou8
unwind 22
solver z3
cases LEN 0 20
doc simd_atou on every string of LEN (0..20) decimal digits (value mod 2^64, so exact whenever it fits), over the contract of atou8
@*/
#include "vc.h"
#include "raii.h"
static char S[28];
static uint64_t H[21];     /* H[i]: value of the first i digits */
static const uint64_t P10[9] = { 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000 };
/* contract of atou8 (proved by c09_atou8: r is the value of the n digits at s), with the
 * concatenation lemma (c09_lemma) instantiated at s */
uint32_t atou8(const char *s, uint32_t n)
{
    uint32_t r = nd_u32();
    CHECK(n <= 8, "atou8 precondition: at most 8 digits");
    CHECK(SAME(s, S) && OFF(s) + n <= LEN, "atou8 precondition: digits of the text");
    ASSUME(H[OFF(s) + n] == H[OFF(s)] * P10[n] + (uint64_t)r);
    return r;
}
#include "src_swar.c"
void harness(void)
{
    int i;
    /* nothing but the lemma is needed of the values: any family with the concatenation law */
    H[0] = 0;
    for (i = 1; i <= LEN; i++) H[i] = nd_u64();
    uint64_t r = simd_atou(S, LEN);
    CHECK(r == H[LEN], "simd_atou returns the value of the digits");
    REACH("simd_atou returns");
}
