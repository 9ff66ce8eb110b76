/* C04: random programs over blocks, handlers and protected pointers against an oracle; the protection macros */
#include "ex_prog.h"
int vcd_fork_each = 0;
static int rl[8], nrl;
static void rel_m(void *p) { if (nrl < 8) rl[nrl] = (int)(intptr_t)p; nrl++; }
#define V(i) ((void *)(intptr_t)(i))
static void macros(void)
{
    int at = (int)vcd_below(6), ch = (int)vcd_below(3), got = 0, want[8], n = 0, i; nrl = 0; vcd_note("protected(p), protected(q), q %s, throw at %d", ch == 0 ? "kept" : ch == 1 ? "changed" : "null", at);
    ex_ptr_t *st = ex_init()->stack;
    try {
        void *p = V(1), *q = V(2), *r = V(3);
        if (at == 0) throw(range_error);
        protected(p, rel_m); protected(q, rel_m);
        if (ch == 1) q = V(7); else if (ch == 2) q = NULL;
        if (at == 1) throw(range_error);
        unprotected(q);
        if (at == 2) throw(range_error);
        try { protected(r, rel_m); if (at == 3) throw(out_of_memory); unprotected(r); if (at == 4) throw(out_of_memory); } catch (range_error) { } end_try;
        unprotected(p); if (at == 5) throw(range_error);
    } catch_any { got = 1; } end_try;
    VCD_CHECK(got, "the exception is caught"); VCD_CHECK(ex_init()->stack == st, "pointers stay protected in the enclosing block");
    if (at == 1 && ch < 2) want[n++] = ch ? 7 : 2; if (at == 3) want[n++] = 3; if (at >= 1 && at <= 4) want[n++] = 1;
    VCD_CHECK(nrl == n, "%d pointers are released, expected %d", nrl, n); for (i = 0; i < n; i++) VCD_CHECK(rl[i] == want[i], "pointer %d is released as number %d, expected %d", rl[i], i, want[i]);
}
void vcd_trial(uint64_t n) { if (n % 16 == 0) { macros(); return; } p_protect = 4; ex_trial(n & 1); }
