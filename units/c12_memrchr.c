/*@vc
prop C12
src swar.c
func simd_memrchr memrchrk pmemrchr pmemrchrk _memrchr
nloops _memrchr 1
loop _memrchr 0
 ptr p=s
 inv SAME(p, s) && OFF(p) >= OFF(s) && OFF(p) - OFF(s) <= len
 inv (len - (OFF(p) - OFF(s))) % 8 == 0
 inv (gk >= OFF(p) - OFF(s) && gk < len) ==> (uint8_t)s[gk] != c
 dec p - s
unwind 16
cases FN 0 3
doc reverse search over any buffer of any length (32-bit), any byte: last index, or absence exactly when it does not occur; gk is an arbitrary index
assume the p (printable) forms are used on bytes and characters below 128, the k (known) forms on text that contains the character, as documented
@*/
#include "vc.h"
#include "raii.h"
static size_t gk;
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    uint32_t len = nd_u32(), r; uint8_t c = nd_u8(); size_t n = len < 8 ? 8 : len;
    char *s = vc_new(n, 0);
    gk = nd_size();
    ASSUME(s != NULL && (gk < len || (len == 0 && gk == 0)));
    vc_reg(s, n);
    /* the precondition "every byte is below 128", instantiated around gk and, below, at the result */
    int k;
    if (FN >= 2) { ASSUME(c < 128); for (k = -7; k <= 7; k++) if (gk + k < len) ASSUME((uint8_t)s[gk + k] < 128); }
    size_t w = nd_size();     /* FN 1, 3: a position of c, known to exist */
    if (FN == 1 || FN == 3) ASSUME(w < len && (uint8_t)s[w] == c);
    switch (FN) {
    case 0: { string q = simd_memrchr(s, c, len); r = q ? (uint32_t)(q - s) : (uint32_t)-1;
              CHECK(!q || (SAME(q, s) && OFF(q) < len), "simd_memchr points into the text"); break; }
    case 1: r = memrchrk(s, len, c); break;
    case 2: r = pmemrchr(s, len, c); break;
    default: r = pmemrchrk(s, len, c);
    }
    if (FN >= 2 && r < len) ASSUME((uint8_t)s[r] < 128);
    if (r == (uint32_t)-1) CHECK(len == 0 || (uint8_t)s[gk] != c, "absence is reported only if no byte matches");
    else {
        CHECK(r < len, "found position is inside the text");
        CHECK((uint8_t)s[r] == c, "the byte is at the found position");
        if (gk > r) CHECK(len == 0 || (uint8_t)s[gk] != c, "no later occurrence");
    }
    REACH("search returns");
    if (r != (uint32_t)-1 && r > 100 && r + 100 < len) REACH("found in an earlier word");
}
