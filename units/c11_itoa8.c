/*@vc
prop C11
src swar.c
func itoa8
stub utoa2p
subst itoa8 ~\b(\w+)\s?%\s*(10+)\b~(int)vc_mod((uint64_t)\1, \2)~
subst itoa8 ~\b(\w+)\s?/=\s*(10+)\b~\1 = (int)vc_div((uint64_t)\1, \2)~
subst itoa8 ~\b(\w+)\s?/\s*(10+)\b~(int)vc_div((uint64_t)\1, \2)~
unwind 26
cases ND 1 8
timeout 600
doc itoa8 for every value of magnitude below 100000000: canonical decimal text, its length, and at most eight bytes past the sign written; over the contract of utoa2p
\ quotient and remainder of a value by 10 and 100 are read off its decimal representation instead of being bit-blasted (c11_lemma)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_digits.h"
static uint8_t pair_hi(uint64_t x) { int i; for (i = 0; i <= 20; i++) if (x == D[i] + 10 * D[i + 1]) return (uint8_t)D[i + 1]; return (uint8_t)x / 10; }
static uint8_t pair_lo(uint64_t x) { int i; for (i = 0; i <= 20; i++) if (x == D[i] + 10 * D[i + 1]) return (uint8_t)D[i]; return (uint8_t)x % 10; }
/* contract of utoa2p, proved by c11_utoa2p */
uint16_t utoa2p(uint64_t x)
{
    CHECK(x < 100, "utoa2p precondition: below 100");
    return (uint16_t)(('0' + pair_hi(x)) | (('0' + pair_lo(x)) << 8));
}
#include "src_swar.c"
void harness(void)
{
    int32_t x = nd_i32(); char b[12]; int i, n = ND; uint8_t a = nd_u8(), z = nd_u8();
    ASSUME(x > -100000000 && x < 100000000);
    int neg = x < 0;
    vc_digits();
    ASSUME(W[0] == (uint64_t)(neg ? -x : x));
    ASSUME(vc_ndigits() == ND); for (i = ND; i < 24; i++) { ASSUME(W[i] == 0); W[i] = 0; D[i] = 0; }
    b[0] = (char)a; b[11] = (char)z;
    uint32_t r = itoa8(x, b + 1);
    CHECK(r == (uint32_t)(n + neg), "itoa8 returns the length of the canonical text");
    CHECK(!neg || b[1] == '-', "itoa8 minus sign exactly when negative");
    CHECK(b[1 + neg + n] == '\0', "itoa8 terminates the text");
    for (i = 0; i < n; i++)
        CHECK(b[1 + neg + n - 1 - i] == '0' + (int)D[i], "itoa8 writes the digits of the value");
    CHECK((uint8_t)b[0] == a && (uint8_t)b[11] == z, "itoa8 stays in its buffer");
    REACH("itoa8 returns");
    if (neg) REACH("negative");
}
