/*@vc
prop C09
src swar.c
func simd_atoi
stub simd_atou
unwind 33
cases LEN 0 21
doc simd_atoi on every text of LEN characters (0..21: optional sign, up to 20 digits) whose value fits the signed range, over the contract of simd_atou
@*/
#include "vc.h"
#include "raii.h"
static char S[32];
static uint64_t V;         /* value of the digits */
static int signs;
uint64_t simd_atou(const char *s, uint32_t n)
{
    CHECK(n <= 20, "simd_atou precondition: at most 20 digits");
    CHECK(SAME(s, S) && OFF(s) == signs && n == LEN - signs, "simd_atou gets exactly the digits");
    return V;
}
#include "src_swar.c"
void harness(void)
{
    int i, neg;
    for (i = 0; i < 32; i++) S[i] = (char)nd_u8();
    signs = LEN > 0 && (S[0] == '-' || S[0] == '+');
    neg = LEN > 0 && S[0] == '-';
    ASSUME(LEN - signs <= 20);
    for (i = 0; i < LEN; i++) if (i >= signs) ASSUME(S[i] >= '0' && S[i] <= '9');
    V = nd_u64();
    if (LEN - signs == 0) ASSUME(V == 0);
    ASSUME(V <= (uint64_t)INT64_MAX + (neg ? 1 : 0));
    int64_t r = simd_atoi(S, LEN);
    CHECK(neg ? (r <= 0 && (uint64_t)0 - (uint64_t)r == V) : (r >= 0 && (uint64_t)r == V), "simd_atoi returns the signed value");
    REACH("simd_atoi returns");
}
