/* C09: decimal text parses to its exact value */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n)
{
    char t[40]; unsigned len = (unsigned)vcd_below(21); int k; unsigned __int128 v = 0;
    memset(t, 0, sizeof t);
    for (k = 0; k < 40; k++) t[k] = (char)vcd_rnd();
    char *s = t + 8;
    int sign = vcd_below(3), d0 = vcd_below(4);
    uint64_t pick = vcd_biased();
    if (vcd_below(2)) { char b[32]; len = (unsigned)sprintf(b, "%llu", (unsigned long long)pick); memcpy(s, b, len); }
    else for (k = 0; k < (int)len; k++) s[k] = (char)('0' + (d0 == 0 ? 9 : d0 == 1 ? 0 : vcd_below(10)));
    for (k = 0; k < (int)len; k++) v = v * 10 + (unsigned)(s[k] - '0');
    vcd_note("digits \"%.*s\" len %u", len, s, len);
    if (len <= 8) VCD_CHECK(atou8(s, len) == (uint32_t)v, "atou8 returns %u, the text denotes %llu", atou8(s, len), (unsigned long long)v);
    if (v >> 64 == 0) VCD_CHECK(simd_atou(s, len) == (uint64_t)v, "simd_atou returns %llu, the text denotes %llu", (unsigned long long)simd_atou(s, len), (unsigned long long)v);
    if (len) {
        char *q = s; unsigned l = len;
        if (sign) { q--; l++; *q = sign == 1 ? '-' : '+'; }
        if (v <= (unsigned __int128)INT64_MAX + (sign == 1)) {
            int64_t want = sign == 1 ? (int64_t)(0 - (uint64_t)v) : (int64_t)v;
            vcd_note(" sign %d", sign);
            VCD_CHECK(simd_atoi(q, l) == want, "simd_atoi returns %lld, the text denotes %lld", (long long)simd_atoi(q, l), (long long)want);
        }
    } else VCD_CHECK(simd_atoi(s, 0) == 0, "simd_atoi of no characters");
}
