/* C15: splitting */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n)
{
    static char t[70300]; char d[8]; size_t l = n % 3000 == 77 ? 200 + vcd_below(n % 2000 < 1000 ? 1000 : 70000) : 1 + vcd_below(vcd_below(8) ? 24 : 250), dl = vcd_below(4) ? 1 + vcd_below(3) : 1 + vcd_below(6), i; int k = 1 + (int)vcd_below(3), cnt = -7, want = 0;
    for (i = 0; i < l; i++) t[i] = (char)('a' + vcd_below(k)); for (i = 0; i < dl; i++) d[i] = (char)('a' + vcd_below(k));
    t[l] = d[dl] = 0;
    if (dl <= l && vcd_below(3) == 0) memcpy(t + l - dl, d, dl);
    vcd_note("text \"%s\" delimiter \"%s\"", t, d);
    char *s = vcd_str(t, l), *q = vcd_str(d, dl); memory_t *m = n & 1 ? unique_init() : NULL; int count = vcd_below(8) > 0, mode = (int)vcd_below(3);
    char **r = m ? str_split_ex(m, s, q, count ? &cnt : NULL) : mode ? raii_split(s, q, count ? &cnt : NULL) : str_split_ex(NULL, s, q, count ? &cnt : NULL);
    VCD_CHECK(r != NULL, "null result");
    char *p = t;
    for (;;) {
        char *e = strstr(p, d); size_t pl = e ? (size_t)(e - p) : strlen(p);
        VCD_CHECK(vcd_in_block(r, (want + 2) * sizeof(char *)), "list does not fit its block");
        VCD_CHECK(r[want] != NULL, "piece %d is missing", want);
        VCD_CHECK(vcd_in_block(r[want], pl + 1) && vcd_in_block(r, (char *)r[want] + pl + 1 - (char *)r), "piece %d is outside the block", want);
        VCD_CHECK(strlen(r[want]) == pl && !memcmp(r[want], p, pl), "piece %d is \"%s\", expected \"%.*s\"", want, r[want], (int)pl, p);
        want++;
        if (!e) break;
        p = e + dl;
    }
    VCD_CHECK(r[want] == NULL, "list is not terminated after %d pieces", want);
    VCD_CHECK(!count || cnt == want, "count is %d, expected %d", cnt, want);
    VCD_CHECK(!memcmp(s, t, l + 1) && !memcmp(q, d, dl + 1), "an input is modified");
    vcd_check_blocks();
    if (m) raii_delete(m); else if (!mode) vcd_free(r);
    raii_init(); raii_deferred_clean();
    free(s); free(q);
}
