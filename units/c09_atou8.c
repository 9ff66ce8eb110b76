/*@vc
prop C09
src swar.c
func atou8 cast
unwind 10
solver z3
cases LEN 0 8
replay
doc atou8 on every string of LEN (0..8, all lengths enumerated) decimal digits, any following bytes: result is the number denoted
@*/
#include "vc.h"
#include "raii.h"
#include "src_swar.c"
#include "vc_parse.h"
void harness(void)
{
    char s[8]; int i;
    for (i = 0; i < 8; i++) { s[i] = (char)nd_u8(); if (i < LEN) ASSUME(s[i] >= '0' && s[i] <= '9'); }
    uint32_t r = atou8(s, LEN);
    CHECK(r == (uint32_t)dec_value(s, LEN), "atou8 returns the value of the digits");
    REACH("atou8 returns");
}
