/*@vc
prop C11
src swar.c
func utoap _utoap
stub utoa2p
subst _utoap ~\b(\w+)\s?%\s*(10+)\b~vc_mod(\1, \2)~
subst _utoap ~\b(\w+)\s?/=\s*(10+)\b~\1 = vc_div(\1, \2)~
subst utoap ~\b(\w+)\s?/=\s*([^;]*);~\1 = vc_div(\1, \2);~
subst utoap ~\b(\w+)\s?/\s*(10+)\b~vc_div(\1, \2)~
unwind 26
cases WID 0 20
timeout 600
doc utoap for every width N (0..20) and every 64-bit value: exactly the N low-order digits, terminated, nothing beyond the text rounded up to eight bytes; over the contract of utoa2p
\ quotient and remainder of a value by 10 and 100 are read off its decimal representation instead of being bit-blasted (c11_lemma)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_digits.h"
static uint8_t pair_hi(uint64_t x) { int i; for (i = 0; i <= 20; i++) if (x == D[i] + 10 * D[i + 1]) return (uint8_t)D[i + 1]; return (uint8_t)x / 10; }
static uint8_t pair_lo(uint64_t x) { int i; for (i = 0; i <= 20; i++) if (x == D[i] + 10 * D[i + 1]) return (uint8_t)D[i]; return (uint8_t)x % 10; }
/* contract of utoa2p, proved by c11_utoa2p */
uint16_t utoa2p(uint64_t x)
{
    CHECK(x < 100, "utoa2p precondition: below 100");
    return (uint16_t)(('0' + pair_hi(x)) | (('0' + pair_lo(x)) << 8));
}
#include "src_swar.c"
#define CAP (WID / 8 * 8 + 8)
void harness(void)
{
    char b[2 + CAP]; int i; uint8_t a = nd_u8(), z = nd_u8();
    vc_digits();
    b[0] = (char)a; b[1 + CAP] = (char)z;
    char *r = utoap(WID, W[0], b + 1);
    CHECK(r == b + 1, "utoap returns the buffer");
    CHECK(b[1 + WID] == '\0', "utoap terminates the text");
    for (i = 0; i < WID; i++)
        CHECK(b[1 + WID - 1 - i] == '0' + (int)D[i], "utoap writes the low-order digits");
    CHECK((uint8_t)b[0] == a && (uint8_t)b[1 + CAP] == z, "utoap stays in its buffer");
    REACH("utoap returns");
}
