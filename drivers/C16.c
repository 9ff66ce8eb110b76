/* C16: replacing */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n)
{
    static char t[70300], w[800000]; char d[8], x[12]; size_t l = n % 3000 == 77 ? 200 + vcd_below(n % 2000 < 1000 ? 1000 : 70000) : vcd_below(vcd_below(8) ? 24 : 250), dl = vcd_below(4) ? 1 + vcd_below(3) : 1 + vcd_below(6), xl = vcd_below(10), i, o = 0; int k = 1 + (int)vcd_below(3), c = 0;
    for (i = 0; i < l; i++) t[i] = (char)('a' + vcd_below(k)); for (i = 0; i < dl; i++) d[i] = (char)('a' + vcd_below(k)); for (i = 0; i < xl; i++) x[i] = (char)('a' + vcd_below(k + 1));
    t[l] = d[dl] = x[xl] = 0;
    if (dl <= l && vcd_below(3) == 0) memcpy(t + l - dl, d, dl);
    vcd_note("text \"%s\" pattern \"%s\" replacement \"%s\"", t, d, x);
    for (i = 0; i < l;) if (!strncmp(t + i, d, dl)) { memcpy(w + o, x, xl); o += xl; i += dl; c++; } else w[o++] = t[i++];
    w[o] = 0;
    char *s = vcd_str(t, l), *q = vcd_str(d, dl), *y = vcd_str(x, xl); memory_t *m = n & 1 ? unique_init() : NULL; int mode = (int)vcd_below(3);
    char *r = m ? str_replace_ex(m, s, q, y) : mode ? raii_replace(s, q, y) : str_replace_ex(NULL, s, q, y);
    VCD_CHECK((r != NULL) == (c > 0), "result is %snull with %d occurrences", r ? "not " : "", c);
    if (r) {
        VCD_CHECK(vcd_block_size(r) == o + 1, "block of %zu bytes for a text of %zu", vcd_block_size(r), o);
        VCD_CHECK(!memcmp(r, w, o + 1), "result \"%s\", expected \"%s\"", r, w);
    }
    VCD_CHECK(!memcmp(s, t, l + 1) && !memcmp(q, d, dl + 1) && !memcmp(y, x, xl + 1), "an input is modified");
    vcd_check_blocks();
    VCD_CHECK(!raii_replace(NULL, q, y) && !raii_replace(s, NULL, y) && !raii_replace(s, q, NULL), "null argument");
    if (m) raii_delete(m); else if (!mode) vcd_free(r);
    raii_init(); raii_deferred_clean();
    free(s); free(q); free(y);
}
