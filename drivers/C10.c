/* C10: hexadecimal text parses to its exact value */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n)
{
    static const char d[] = "0123456789abcdefABCDEF";
    char t[32]; unsigned len = (unsigned)vcd_below(17); int k; uint64_t v = 0;
    for (k = 0; k < 32; k++) t[k] = (char)vcd_rnd();
    for (k = 0; k < (int)len; k++) {
        int i = (int)vcd_below(22); t[k] = d[i];
        v = v * 16 + (unsigned)(i < 16 ? i : i - 6);
    }
    vcd_note("hex \"%.*s\" len %u", len, t, len);
    if (len <= 8) VCD_CHECK(htou8(t, len) == (uint32_t)v, "htou8 returns %x, the text denotes %llx", htou8(t, len), (unsigned long long)v);
    VCD_CHECK(simd_htou(t, len) == v, "simd_htou returns %llx, the text denotes %llx", (unsigned long long)simd_htou(t, len), (unsigned long long)v);
}
