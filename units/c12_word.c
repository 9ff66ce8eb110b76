/*@vc
prop C12
src swar.c
func memchr8 memchr8k _memchr8 haszero hasbyte extend cast cast8 countr_zero countl_zero countr_index
unwind 70
replay
doc word helpers for every 8-byte word, byte and length: zero/byte tests, first-occurrence index, masked cast, replicated byte, bit counts
@*/
#include "vc.h"
#include "raii.h"
#include "src_swar.c"
void harness(void)
{
    char s[8]; int i, first = -1, z = 0; uint8_t c = nd_u8(); uint64_t x; uint32_t len = nd_u32();
    for (i = 0; i < 8; i++) s[i] = (char)nd_u8();
    memcpy(&x, s, 8);
    for (i = 7; i >= 0; i--) { if ((uint8_t)s[i] == c) first = i; if (s[i] == 0) z = 1; }
    CHECK(memchr8(s, c) == (uint32_t)first, "memchr8 first index or -1");
    if (first >= 0) CHECK(memchr8k(s, c) == (uint32_t)first, "memchr8k first index");
    CHECK(haszero(x) == (z != 0), "haszero exactly when a byte is zero");
    CHECK(hasbyte(x, c) == (first >= 0), "hasbyte exactly when a byte equals c");
    CHECK(cast(s) == x, "cast is the word");
    uint64_t e = extend((char)c);
    for (i = 0; i < 8; i++) CHECK((uint8_t)(e >> (8 * i)) == c, "extend replicates the byte");
    ASSUME(len <= 8);
    uint64_t m = cast8(s, len);
    for (i = 0; i < 8; i++) CHECK((uint8_t)(m >> (8 * i)) == ((uint32_t)i < len ? (uint8_t)s[i] : 0), "cast8 keeps exactly the first bytes");
    int lo = 64, hi = 64;
    for (i = 63; i >= 0; i--) if (x >> i & 1) lo = i;
    for (i = 0; i < 64; i++) if (x >> i & 1) hi = 63 - i;
    CHECK(countr_index(x) == (x ? lo + 1 : 0), "countr_index");
    if (x) { CHECK(countr_zero(x) == lo, "countr_zero"); CHECK(countl_zero(x) == hi, "countl_zero"); }
    REACH("word helpers");
}
