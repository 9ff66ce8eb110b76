/*@vc
prop C09
src swar.c
solver z3
unwind 10
cases N 1 8
doc lemma: continuing the decimal value h of a prefix with N digits of value g gives h*10^N + g (mod 2^64); used by the contract of atou8 in c09_atou
@*/
#include "vc.h"
void harness(void)
{
    uint64_t h0 = nd_u64(), h = h0, g = 0, p = 1; int i;
    for (i = 0; i < N; i++) {
        uint64_t d = nd_u64();
        ASSUME(d <= 9);
        h = h * 10 + d; g = g * 10 + d; p *= 10;
    }
    CHECK(h == h0 * p + g, "decimal value of a concatenation");
    REACH("lemma");
}
