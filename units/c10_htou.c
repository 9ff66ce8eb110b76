/*@vc
prop C10
src swar.c
func simd_htou
stub htou8
unwind 18
cases LEN 0 16
doc simd_htou on every string of LEN (0..16) hexadecimal digits, over the contract of htou8
@*/
#include "vc.h"
#include "raii.h"
#include "vc_parse.h"
/* contract of htou8, proved by unit c10_htou8: requires n <= 8 digits inside the text and 8 readable bytes */
static char S[24];
uint32_t htou8(const char *s, uint32_t n)
{
    int i;
    CHECK(n <= 8, "htou8 precondition: at most 8 digits");
    CHECK(SAME(s, S) && OFF(s) + n <= LEN, "htou8 precondition: digits of the text");
    CHECK(OFF(s) + 8 <= LEN + 8, "htou8 precondition: readable");
    return (uint32_t)hex_value(s, (int)n);
}
#include "src_swar.c"
void harness(void)
{
    int i;
    for (i = 0; i < 16; i++) { S[i] = (char)nd_u8(); if (i < LEN) ASSUME(hex_digit(S[i]) >= 0); }
    uint64_t r = simd_htou(S, LEN);
    CHECK(r == hex_value(S, LEN), "simd_htou returns the value of the digits");
    REACH("simd_htou returns");
}
