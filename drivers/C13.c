/* C13: string length and comparison */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
static int sgn(int x) { return (x > 0) - (x < 0); }
void vcd_trial(uint64_t n)
{
    size_t big = n % 3000 == 77 ? 70000 : 0, la = big ? 300 + vcd_below(n % 2000 < 1000 ? 1000 : big) : vcd_below(4) ? vcd_below(20) : vcd_below(300), lb, i, off = vcd_below(8); int m = (int)vcd_below(4);
    char *a, *b, *base = aligned_alloc(8, big + 2048), *base2 = aligned_alloc(8, big + 2048);
    memset(base, 0, big + 2048); memset(base2, 0, big + 2048);
    a = base + off; b = base2 + (off + vcd_below(2) * 0) ;
    for (i = 0; i < la; i++) { a[i] = (char)(m == 0 ? 1 + vcd_below(2) : m == 1 ? 0x80 + vcd_below(2) : 1 + vcd_below(255)); }
    for (i = la + 1; i + off < (big ? la + 500 : 500); i++) a[i] = (char)vcd_rnd();
    memcpy(b, a, la + 1); lb = la;
    if (vcd_below(3)) { size_t k = la ? vcd_below(la) : 0; if (la) b[k] = (char)(1 + vcd_below(255)); }
    if (vcd_below(3) == 0) { lb = vcd_below(la + 1); b[lb] = 0; for (i = lb + 1; i < 300; i++) b[i] = (char)vcd_rnd(); }
    vcd_note("offset %zu strings", off); for (i = 0; i <= la; i++) vcd_note(" %02x", (unsigned char)a[i]); vcd_note(" /"); for (i = 0; i <= lb; i++) vcd_note(" %02x", (unsigned char)b[i]);
    VCD_CHECK(simd_strlen(a) == strlen(a), "simd_strlen gives %zu for %zu", simd_strlen(a), strlen(a));
    VCD_CHECK(simd_strlen(b) == strlen(b), "simd_strlen gives %zu for %zu", simd_strlen(b), strlen(b));
    int w = sgn(strcmp(a, b));
    VCD_CHECK(sgn(simd_strcmp(a, b)) == w, "simd_strcmp gives %d, expected sign %d", simd_strcmp(a, b), w);
    VCD_CHECK(sgn(simd_strcmp(b, a)) == -w, "simd_strcmp reversed gives %d, expected sign %d", simd_strcmp(b, a), -w);
    VCD_CHECK(is_str_eq(a, b) == (w == 0), "is_str_eq"); VCD_CHECK(!is_str_eq(NULL, a) && !is_str_eq(a, NULL) && !is_str_eq(NULL, NULL), "is_str_eq null");
    VCD_CHECK(is_str_empty(a) == (la == 0), "is_str_empty"); VCD_CHECK(!is_str_empty(NULL), "is_str_empty null");
    free(base); free(base2);
}
