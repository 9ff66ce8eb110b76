/* C26: texts with a decimal point against extended precision */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n)
{
    char b[96]; memset(b, 0x30 + (int)vcd_below(10), sizeof b); int k = 0, i, neg = 0, ni = (int)vcd_below(19), nf = vcd_below(4) ? (int)vcd_below(20) : (int)vcd_below(50), dot = vcd_below(8) != 0, z = (int)vcd_below(3);
    int s = (int)vcd_below(4); if (s == 1) { b[k++] = '-'; neg = 1; } else if (s == 2) b[k++] = '+';
    if (!dot && !ni) ni = 1;
    long double I = 0, F = 0, sc = 1; for (i = 0; i < ni; i++) { int d = z == 1 ? 0 : z == 2 ? 9 : (int)vcd_below(10); b[k++] = (char)('0' + d); I = I * 10 + d; }
    if (dot) { b[k++] = '.'; z = (int)vcd_below(4); for (i = 0; i < nf; i++) { int d = z == 1 ? 0 : z == 2 ? 9 : (int)vcd_below(10); b[k++] = (char)('0' + d); if (i < 18) { F = F * 10 + d; sc *= 10; } } }
    long double v = I + F / sc, e; if (neg) v = -v; vcd_note("%.*s", k, b);
    char *m = calloc(1, (size_t)k + 20); memcpy(m, b, (size_t)k); if (vcd_below(2)) memset(m + k, '0' + (int)vcd_below(10), 19);   /* what follows does not matter */
    double r = simd_atod(m, (uint32_t)k); e = (long double)r - v; if (e < 0) e = -e;
    VCD_CHECK(e <= (v < 0 ? -v : v) * 4.5e-16L + 1.0e-18L, "parsed as %.20g, is %.20Lg", r, v);
    if (!dot) VCD_CHECK(r == (double)(neg ? -I : I), "without a dot it is the integer");
    VCD_CHECK(m[k] == 0 || m[k] >= '0', "text unchanged"); free(m);
}
