/* C21: any number of arenas sharing the recycled chunks: blocks in bounds, disjoint, never overwritten; nothing leaks */
#include "vcd.h"
#include "raii.h"
#include <limits.h>
int vcd_fork_each = 0;
enum { NA = 5, NB = 400 };
static arena_t ar[NA]; static struct { char *p; size_t n; unsigned char b; int a; } bl[NB]; static int nb;
static void check(void)
{
    int i; size_t k;
    for (i = 0; i < nb; i++) for (k = 0; k < bl[i].n; k += bl[i].n > 4000 ? 97 : 1) if ((unsigned char)bl[i].p[k] != bl[i].b) vcd_fail("byte %zu of a block of %zu bytes of arena %d was overwritten", k, bl[i].n, bl[i].a);
}
static void drop(int a) { int i, j = 0; for (i = 0; i < nb; i++) if (bl[i].a != a) bl[j++] = bl[i]; nb = j; }
void vcd_trial(uint64_t n)
{
    int i, j, ops = 5 + (int)vcd_below(120); nb = 0; memset(ar, 0, sizeof ar);
    long live = vcd_live; static size_t tot[NA]; size_t most = 0; memset(tot, 0, sizeof tot);
    for (i = 0; i < ops; i++) {
        int a = (int)vcd_below(NA), w = (int)vcd_below(20);
        if (!ar[a]) { size_t t = vcd_below(6) ? 1 + vcd_below(3) : vcd_below(12); tot[a] = 0; ar[a] = arena_init(t); vcd_note("init%d(%zu) ", a, t); VCD_CHECK(arena_capacity(ar[a]) == 0, "capacity of a new arena"); continue; }
        if (vcd_below(25) == 0) {   /* a request that cannot be met raises and changes nothing */
            volatile int c = 0; long big = vcd_below(2) ? 1L << 60 : vcd_below(2) ? LONG_MAX - (long)vcd_below(64) : 1L << 62; size_t t = arena_total(ar[a]); vcd_note("impossible%d(%ld) ", a, big);
            try { if (vcd_below(2)) arena_alloc(ar[a], big); else arena_calloc(ar[a], 1 + (long)vcd_below(40), big); } catch_any { c = is_str_eq(ex_err.ex, "panic"); } end_try;
            VCD_CHECK(c, "an impossible request does not raise"); VCD_CHECK(arena_total(ar[a]) == t, "after an impossible request the arena counts %zu instead of %zu", arena_total(ar[a]), t);
            continue;
        }
        if (w < 15) {
            size_t sz = 1 + (vcd_below(3) == 0 ? vcd_below(vcd_below(20) ? 6000 : 60000) : vcd_below(3) ? vcd_below(3000) : vcd_below(20)); int z = (int)vcd_below(3) == 0; char *p;
            vcd_note("%s%d(%zu) ", z ? "calloc" : "alloc", a, sz);
            size_t cap = arena_capacity(ar[a]);
            if (z) { long c = 1 + (long)vcd_below(5); sz *= (size_t)c; p = arena_calloc(ar[a], c, (long)(sz / (size_t)c)); } else p = arena_alloc(ar[a], (long)sz);
            tot[a] += sz + 13 * 1024; if (tot[a] > most) most = tot[a]; VCD_CHECK(p, "null"); VCD_CHECK(vcd_in_block(p, sz), "a block of %zu bytes is not inside memory of the arena", sz);
            for (j = 0; j < nb; j++) if (p < bl[j].p + bl[j].n && bl[j].p < p + sz) vcd_fail("a block of %zu bytes of arena %d overlaps one of %zu bytes of arena %d", sz, a, bl[j].n, bl[j].a);
            if (z) { size_t k; for (k = 0; k < sz; k++) VCD_CHECK(p[k] == 0, "byte %zu not zeroed", k); }
            VCD_CHECK(cap < sz || arena_capacity(ar[a]) == cap - (sz + 1) / 2 * 2, "capacity %zu after %zu of %zu", arena_capacity(ar[a]), sz, cap);
            unsigned char b = (unsigned char)vcd_below(256); memset(p, b, sz);
            if (nb < NB) { bl[nb].p = p; bl[nb].n = sz; bl[nb].b = b; bl[nb++].a = a; }
        } else if (w < 18) { vcd_note("clear%d ", a); check(); arena_clear(ar[a]); drop(a); VCD_CHECK(arena_capacity(ar[a]) == 0, "capacity after clear"); }
        else { vcd_note("free%d ", a); check(); arena_free(ar[a]); ar[a] = NULL; drop(a); }
    }
    check();
    for (i = 0; i < NA; i++) if (ar[i]) { if (vcd_below(2) == 0) arena_clear(ar[i]); arena_free(ar[i]); drop(i); check(); }
    /* a request no recycled chunk can serve takes them all; freed then */
    arena_t x = arena_init(1); arena_alloc(x, (long)most + 1024); arena_free(x);
    VCD_CHECK(vcd_live == live, "%ld blocks leak", vcd_live - live); vcd_check_blocks();
}
