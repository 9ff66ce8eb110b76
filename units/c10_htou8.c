/*@vc
prop C10
src swar.c
func htou8 cast
unwind 10
cases LEN 0 8
replay
doc htou8 on every string of LEN (0..8) hexadecimal digits of either case, any following bytes
@*/
#include "vc.h"
#include "raii.h"
#include "src_swar.c"
#include "vc_parse.h"
void harness(void)
{
    char s[8]; int i;
    for (i = 0; i < 8; i++) { s[i] = (char)nd_u8(); if (i < LEN) ASSUME(hex_digit(s[i]) >= 0); }
    uint32_t r = htou8(s, LEN);
    CHECK(r == (uint32_t)hex_value(s, LEN), "htou8 returns the value of the digits");
    REACH("htou8 returns");
}
