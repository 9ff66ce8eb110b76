/* C12: byte search */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n)
{
    uint32_t len = (uint32_t)(n % 3000 == 77 ? 200 + vcd_below(n % 2000 < 1000 ? 1000 : 70000) : vcd_below(4) ? vcd_below(20) : vcd_below(200)), k; size_t cap = len < 8 ? 8 : len;
    unsigned char *s = vcd_malloc(cap); int mode = (int)vcd_below(4); uint8_t c = (uint8_t)vcd_rnd();
    long first = -1, last = -1;
    if (mode == 0) c = vcd_below(2) ? 0 : (uint8_t)(0x80 + vcd_below(2));
    for (k = 0; k < cap; k++) s[k] = (unsigned char)(mode == 3 ? vcd_rnd() : vcd_below(3) ? (uint8_t)(c ^ (vcd_below(2) ? 1 : 0x80)) : c + (mode == 1 ? 1 : vcd_below(5)));
    int print = vcd_below(2);
    if (print) { c &= 127; for (k = 0; k < cap; k++) s[k] &= 127; }
    for (k = 0; k < len; k++) if (s[k] == c) { if (first < 0) first = k; last = k; }
    vcd_note("len %u byte %02x text", len, c); for (k = 0; k < cap; k++) vcd_note(" %02x", s[k]);
    char *t = (char *)s;
    VCD_CHECK(simd_memchr(t, c, len) == (first < 0 ? NULL : t + first), "simd_memchr, first occurrence %ld", first);
    VCD_CHECK(simd_memrchr(t, c, len) == (last < 0 ? NULL : t + last), "simd_memrchr, last occurrence %ld", last);
    if (first >= 0) {
        VCD_CHECK(memchrk(t, len, c) == (uint32_t)first, "memchrk gives %u, first occurrence %ld", memchrk(t, len, c), first);
        VCD_CHECK(memrchrk(t, len, c) == (uint32_t)last, "memrchrk gives %u, last occurrence %ld", memrchrk(t, len, c), last);
    }
    if (print) {
        VCD_CHECK(pmemchr(t, len, c) == (uint32_t)first, "pmemchr gives %u, first occurrence %ld", pmemchr(t, len, c), first);
        VCD_CHECK(pmemrchr(t, len, c) == (uint32_t)last, "pmemrchr gives %u, last occurrence %ld", pmemrchr(t, len, c), last);
        if (first >= 0) VCD_CHECK(pmemchrk(t, len, c) == (uint32_t)first && pmemrchrk(t, len, c) == (uint32_t)last, "pmemchrk/pmemrchrk");
    }
    int f8 = -1; uint64_t x, z = 0; for (k = 0; k < 8; k++) { if (f8 < 0 && s[k] == c) f8 = (int)k; if (!s[k]) z = 1; }
    memcpy(&x, s, 8);
    VCD_CHECK(memchr8(t, c) == (uint32_t)f8, "memchr8"); if (f8 >= 0) VCD_CHECK(memchr8k(t, c) == (uint32_t)f8, "memchr8k");
    VCD_CHECK(hasbyte(x, c) == (f8 >= 0), "hasbyte"); VCD_CHECK(haszero(x) == z, "haszero");
    k = (uint32_t)vcd_below(9); VCD_CHECK(cast8(t, k) == (k == 8 ? x : x & (((uint64_t)1 << 8 * k) - 1)), "cast8 length %u", k);
    VCD_CHECK(extend((char)c) == c * 0x0101010101010101ull, "extend");
    vcd_free(s);
}
