/* C14: substring search */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n)
{
    static char t[70201]; char p[16]; size_t lt = n % 3000 == 77 ? 200 + vcd_below(n % 2000 < 1000 ? 1000 : 70000) : vcd_below(40), lp = vcd_below(4) ? vcd_below(4) : vcd_below(12), i; int k = 1 + (int)vcd_below(3);
    for (i = 0; i < lt; i++) t[i] = (char)('a' + vcd_below(k)); for (i = 0; i < lp; i++) p[i] = (char)('a' + vcd_below(k));
    if (lp && lp < lt && vcd_below(2)) memcpy(t + vcd_below(lt - lp + 1), p, lp);
    t[lt] = p[lp] = 0;
    char *a = vcd_str(t, lt), *b = vcd_str(p, lp);
    vcd_note("text \"%s\" pattern \"%s\"", t, p);
    char *q = strstr(t, p); int want = q ? (int)(q - t) : -1;
    VCD_CHECK(strpos(a, b) == want, "strpos gives %d, expected %d", strpos(a, b), want);
    VCD_CHECK(is_str_in(a, b) == (want >= 0), "is_str_in");
    free(a); free(b);
}
