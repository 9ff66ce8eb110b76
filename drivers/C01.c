/* C01: deferred functions run exactly once, newest first */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
struct item { int id, nest, api; struct item *sub[4]; };
enum { MAXC = 80000 };
static int got[MAXC], ngot, want[MAXC], nwant, ids; static memory_t *cur; static struct item *pool[MAXC];
static int thread;
static void cb0(void *d), cb1(void *d);
static void reg(struct item *t)
{
    func_t f = t->id & 1 ? cb1 : cb0; memory_t *s = cur;
    switch (thread ? t->api & 3 : t->api & 1) {
    case 0: raii_deferred(s, f, t); break;
    case 1: raii_recover_by(s, f, t); break;
    case 2: raii_defer(f, t); break;
    case 3: raii_recover(f, t); break;
    }
    if (t->api & 4) malloc_full(s, 1 + t->id, RAII_FREE);
    if (t->api & 8) calloc_full(s, 1, 1 + t->id, RAII_FREE);
}
static void call(struct item *t)
{ int i; if (ngot < MAXC) got[ngot++] = t->id; for (i = 0; i < t->nest; i++) reg(t->sub[i]); }
static void cb0(void *d) { VCD_CHECK(!(((struct item *)d)->id & 1), "wrong function"); call(d); }
static void cb1(void *d) { VCD_CHECK(((struct item *)d)->id & 1, "wrong function"); call(d); }
static struct item *mk(int depth)
{
    struct item *t = calloc(1, sizeof *t); int i; t->id = ids; pool[ids++] = t; t->api = vcd_below(3) ? (int)vcd_below(4) : (int)vcd_below(16);
    if (depth < 3 && vcd_below(8) == 0 && ids < 1000) { t->nest = (int)vcd_below(5); for (i = 0; i < t->nest; i++) t->sub[i] = mk(depth + 1); }
    return t;
}
static void expect(struct item *t) { int i; want[nwant++] = t->id; for (i = t->nest - 1; i >= 0; i--) expect(t->sub[i]); }
void vcd_trial(uint64_t n)
{
    int rounds = 1 + (int)vcd_below(3), r, i; static struct item *seq[MAXC];
    raii_init(); thread = (int)vcd_below(2);
    cur = thread ? raii_init() : unique_init();
    long live = vcd_live;
    vcd_note("%s scope:", thread ? "thread" : "heap");
    for (r = 0; r < rounds; r++) {
        int big = n % 8000 == 77 && r == 0, k = big ? 200 + (int)vcd_below(n % 16000 < 8000 ? 1000 : 70000) : (int)vcd_below(vcd_below(4) ? 20 : 70); ngot = nwant = ids = 0;
        vcd_note(" [%d registrations", k);
        for (i = 0; i < k; i++) { seq[i] = mk(0); vcd_note("%s%d", i ? "," : " ", seq[i]->nest); reg(seq[i]); }
        vcd_note(" nested] release;");
        for (i = k - 1; i >= 0; i--) expect(seq[i]);
        if (r == rounds - 1 && !thread) { raii_delete(cur); live--; }
        else if (thread && vcd_below(2)) raii_deferred_clean(); else raii_deferred_free(cur);
        VCD_CHECK(ngot == nwant, "round %d: %d calls, expected %d", r, ngot, nwant);
        for (i = 0; i < ngot; i++) VCD_CHECK(got[i] == want[i], "round %d: call %d is function %d, expected %d", r, i, got[i], want[i]);
        VCD_CHECK(vcd_live <= live, "round %d: %ld blocks leak", r, vcd_live - live);
        for (i = 0; i < ids; i++) free(pool[i]);
    }
}
