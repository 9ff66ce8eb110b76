/*@vc
prop C11
src swar.c
func simd_itoa
stub utoa2p_ex
subst simd_itoa ~\b(\w+)\s?%\s*(10+)\b~vc_mod(\1, \2)~
subst simd_itoa ~\b(\w+)\s?/=\s*(10+)\b~\1 = vc_div(\1, \2)~
subst simd_itoa ~\b(\w+)\s?/\s*(10+)\b~vc_div(\1, \2)~
unwind 26
cases ND 1 19
timeout 800
doc simd_itoa for every 64-bit value: every character, the length, the sign and the terminator, over the contract of utoa2p_ex
\ quotient and remainder of a value by 10 and 100 are read off its decimal representation instead of being bit-blasted (c11_lemma)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_digits.h"
/* contract of utoa2p_ex, proved by c11_utoa2p */
static uint8_t pair_hi(uint64_t x) { int i; for (i = 0; i <= 20; i++) if (x == D[i] + 10 * D[i + 1]) return (uint8_t)D[i + 1]; return (uint8_t)x / 10; }
static uint8_t pair_lo(uint64_t x) { int i; for (i = 0; i <= 20; i++) if (x == D[i] + 10 * D[i + 1]) return (uint8_t)D[i]; return (uint8_t)x % 10; }
void utoa2p_ex(uint64_t x, char *s)
{
    CHECK(x < 100, "utoa2p_ex precondition: below 100");
    s[0] = (char)('0' + pair_hi(x)); s[1] = (char)('0' + pair_lo(x));
}
#include "src_swar.c"
void harness(void)
{
    char b[24]; int i, n; uint8_t a = nd_u8(), z = nd_u8(); int64_t x = nd_i64();
    int neg = x < 0;
    vc_digits();
    ASSUME(W[0] == (neg ? (uint64_t)0 - (uint64_t)x : (uint64_t)x));
    ASSUME(vc_ndigits() == ND); for (i = ND; i < 24; i++) { ASSUME(W[i] == 0); W[i] = 0; D[i] = 0; }
    b[0] = (char)a; b[23] = (char)z;
    uint32_t r = simd_itoa(x, b + 1);
    n = vc_ndigits();
    CHECK(r == (uint32_t)(n + neg), "simd_itoa returns the length of the canonical text");
    CHECK(!neg || b[1] == '-', "simd_itoa minus sign exactly when negative");
    CHECK(b[1 + neg + n] == '\0', "simd_itoa terminates the text");
    for (i = 0; i < 20; i++) if (i < n)
        CHECK(b[1 + neg + n - 1 - i] == '0' + (int)D[i], "simd_itoa writes the digits of the value");
    CHECK((uint8_t)b[0] == a && (uint8_t)b[23] == z, "simd_itoa stays in its buffer");
    REACH("simd_itoa returns");
    if (neg) REACH("negative");
}
