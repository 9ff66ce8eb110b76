/* C11: integers are written as exact decimal text */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n)
{
    char b[64], w[64]; int64_t x = (int64_t)vcd_biased(); uint32_t r; int k, l;
    if (vcd_below(2)) x = -(x == INT64_MIN ? 0 : x);
    if (n % 5000 == 0) x = INT64_MIN;
    vcd_note("value %lld", (long long)x);
    memset(b, 0x7e, sizeof b);
    l = sprintf(w, "%lld", (long long)x);
    r = simd_itoa(x, b + 8);
    VCD_CHECK(r == (uint32_t)l && !memcmp(b + 8, w, l + 1), "simd_itoa writes \"%.24s\" length %u, expected \"%s\"", b + 8, r, w);
    for (k = 0; k < 8; k++) VCD_CHECK(b[k] == 0x7e, "simd_itoa writes before the buffer");
    for (k = 8 + (l + 1 > 2 ? l + 1 : 2); k < 64; k++) VCD_CHECK(b[k] == 0x7e, "simd_itoa writes past the text");
    VCD_CHECK(simd_atoi(b + 8, r) == x, "reading simd_itoa text back gives %lld", (long long)simd_atoi(b + 8, r));
    int32_t y = (int32_t)(x % 100000000);
    vcd_note(" short %d", y);
    memset(b, 0x7e, sizeof b); l = sprintf(w, "%d", y); r = itoa8(y, b + 8);
    VCD_CHECK(r == (uint32_t)l && !memcmp(b + 8, w, l + 1), "itoa8 writes \"%.12s\" length %u, expected \"%s\"", b + 8, r, w);
    for (k = 8 + 8 + 2; k < 64; k++) VCD_CHECK(b[k] == 0x7e, "itoa8 writes past its eight bytes");
    uint64_t u = (uint64_t)vcd_biased(), m = u; int N = (int)vcd_below(21);
    vcd_note(" padded %llu width %d", (unsigned long long)u, N);
    for (k = N - 1; k >= 0; k--) { w[k] = (char)('0' + m % 10); m /= 10; } w[N] = 0;
    memset(b, 0x7e, sizeof b);
    VCD_CHECK(utoap(N, u, b + 8) == b + 8 && !strcmp(b + 8, w), "utoap writes \"%.24s\", expected \"%s\"", b + 8, w);
    for (k = 8 + N / 8 * 8 + 8; k < 64; k++) VCD_CHECK(b[k] == 0x7e, "utoap writes past its words");
    uint64_t p = vcd_below(100); uint16_t q = utoa2p(p);
    VCD_CHECK((q & 255) == '0' + p / 10 && q >> 8 == '0' + p % 10, "utoa2p(%llu)", (unsigned long long)p);
    b[40] = 1; utoa2p_ex(p, b + 41); VCD_CHECK(b[40] == 1 && b[41] == (char)('0' + p / 10) && b[42] == (char)('0' + p % 10) && b[43] == 0x7e, "utoa2p_ex(%llu)", (unsigned long long)p);
}
