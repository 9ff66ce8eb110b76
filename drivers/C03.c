/* C03: scope-owned memory, allocation failures raise */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
static void *rel_seen[64]; static int nrel;
static void own_free(void *p) { if (nrel < 64) rel_seen[nrel++] = p; vcd_free(p); }
static struct { char *p; size_t n; } arb[64]; static int nar; static memory_t *s; static volatile int caught; static void *volatile got;
void vcd_trial(uint64_t n)
{
    void *own[64]; volatile int nown = 0; volatile int i; int k = 1 + (int)vcd_below(vcd_below(3) ? 6 : 40);
    raii_init(); raii_deferred_clean(); nrel = 0;
    long live = vcd_live; volatile int kind = (int)vcd_below(3), thread = kind == 1; volatile size_t most = 0; s = thread ? raii_init() : kind ? unique_init_arena() : unique_init(); long live0 = vcd_live;
    vcd_note("%s scope:", thread ? "thread" : kind ? "arena" : "heap"); nar = 0;
    for (i = 0; i < k; i++) {
        volatile size_t sz = vcd_below(5) ? 1 + vcd_below(200) : vcd_below(4000); volatile int c = 1 + (int)vcd_below(4), what = (int)vcd_below(kind == 2 ? 8 : 6), own1 = (int)vcd_below(2), fail = vcd_below(5) == 0;
        if (fail) vcd_fail_at = vcd_total + 1 + (long)vcd_below(3);
        if (kind == 2 && !sz) sz = 1;   /* an arena does not serve nothing */
        if (vcd_below(40) == 0) { c = 1 + (int)vcd_below(40); sz = vcd_below(2) ? (size_t)1 << 60 : SIZE_MAX - vcd_below(100); }
        vcd_note(" %d(%zu x %d)%s", what, sz, c, fail ? " with a failure" : "");
        caught = 0; got = NULL;
        char text[200]; volatile size_t tl = sz < 200 ? sz : 199; size_t q; for (q = 0; q < tl; q++) text[q] = (char)vcd_rnd();
        func_t f = own1 ? own_free : RAII_FREE;
        try {
            switch (what) {
            case 0: got = malloc_full(s, sz, f); break;
            case 1: got = calloc_full(s, c, sz, f); break;
            case 2: got = malloc_by(s, sz); break;
            case 3: got = calloc_by(s, c, sz); break;
            case 4: got = thread ? malloc_default(sz) : malloc_full(s, sz, f); break;
            case 5: got = str_memdup_ex(s, text, tl); break;
            case 6: got = malloc_arena(s, sz); break;
            case 7: got = calloc_arena(s, c, sz); break;
            }
        } catch_any {
            caught = is_str_eq(ex_err.ex, "panic");
            if (!caught) vcd_fail("another exception than panic: %s", ex_err.ex);
        } end_try;
        vcd_fail_at = 0;
        VCD_CHECK((got == NULL) == caught, "result %p, %s", (void *)got, caught ? "thrown" : "nothing thrown");
        if (!fail && (sz < ((size_t)1 << 50) || what == 5)) VCD_CHECK(!caught, "memory is there, yet the request fails");
        if (sz > ((size_t)1 << 50) && what != 5) VCD_CHECK(caught, "impossible size succeeds");
        if (got) {
            bool ar = what >= 6 || (kind == 2 && (what == 2 || what == 3)), zero = what == 1 || what == 3 || what == 7;
            size_t want = what == 5 ? tl + 1 : zero ? sz * c : sz; size_t j;
            if (ar) { most += want + 13 * 1024; VCD_CHECK(vcd_in_block(got, want), "a block of %zu bytes is not inside memory of the arena", want); for (j = 0; j < (size_t)nar; j++) VCD_CHECK((char *)got + want <= arb[j].p || arb[j].p + arb[j].n <= (char *)got, "a block of %zu bytes of the arena overlaps an earlier one of %zu", want, arb[j].n); arb[nar].p = got; arb[nar++].n = want; }
            else VCD_CHECK(vcd_block_size(got) == want, "block of %zu bytes, requested %zu", vcd_block_size(got), want);
            if (zero) for (j = 0; j < want; j++) VCD_CHECK(((char *)got)[j] == 0, "not zeroed");
            if (what == 5) VCD_CHECK(!memcmp(got, text, tl) && ((char *)got)[tl] == 0, "wrong copy");
            for (j = 0; j < want; j++) ((char *)got)[j] = (char)0x77;
            if (own1 && (what == 0 || what == 1 || (what == 4 && !thread)) && nown < 64) own[nown++] = got;
        }
    }
    if (vcd_below(3) == 0) {    /* overflow-safe growth: count * size past SIZE_MAX is refused, the block stays */
        extern void *realloc_array(void *, size_t, size_t);
        size_t e = 1 + vcd_below(64), c2 = SIZE_MAX / e; void *keep = vcd_malloc(24), *r;
        if (vcd_below(2)) { size_t t = e; e = c2; c2 = t; }
        size_t over = vcd_below(2) ? c2 + 1 : c2 + 1 + vcd_below(1000);
        if ((unsigned __int128)over * e > SIZE_MAX) {
            vcd_note(" realloc_array(%zu, %zu)", over, e);
            r = realloc_array(keep, over, e); VCD_CHECK(r == NULL && vcd_block_size(keep) == 24, "an impossible size succeeds");
        }
        r = realloc_array(keep, 5, 7); VCD_CHECK(r && vcd_block_size(r) == 35, "grown to %zu, requested 35", r ? vcd_block_size(r) : 0);
        vcd_free(r);
    }
    for (i = 0; i < nar; i++) { size_t j; for (j = 0; j < arb[i].n; j++) VCD_CHECK(arb[i].p[j] == 0x77, "byte %zu of a block of the arena was overwritten", j); }
    if (thread) { if (vcd_below(2)) raii_deferred_clean(); else raii_destroy(); }
    else if (kind == 2) { free_arena(s); arena_t x = arena_init(1); arena_alloc(x, (long)most + 1024); arena_free(x); live0 = live; } /* a request no recycled chunk can serve takes them all; freed then */
    else { raii_delete(s); live0--; }
    VCD_CHECK(nrel == nown, "%d releases by the given function, expected %d", nrel, nown);
    for (i = 0; i < nown; i++) VCD_CHECK(rel_seen[i] == own[nown - 1 - i], "release %d of the wrong block", i);
    VCD_CHECK(vcd_live == live0, "%ld blocks leak", vcd_live - live0);
}
