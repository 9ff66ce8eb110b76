/* C02: cancelled defers never run, fired ones run at once and only once */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
struct item { int id, nest; };
static int got[4096], ngot, model[4096], nm, ids; static struct item items[4096]; static memory_t *cur; static int thread;
static void cb(void *d);
static size_t reg(int nest)
{
    struct item *t = &items[ids]; t->id = ids++; t->nest = nest; model[nm++] = t->id;
    return thread && vcd_below(2) ? raii_defer(cb, t) : raii_deferred(cur, cb, t);
}
static int firing;
static void cb(void *d)
{ struct item *t = d; int i; got[ngot++] = t->id; if (firing) for (i = 0; i < t->nest; i++) reg(0); }
void vcd_trial(uint64_t n)
{
    int ops = 5 + (int)vcd_below(vcd_below(4) ? 40 : 150), i, w;
    raii_init(); raii_deferred_clean(); thread = (int)vcd_below(2); cur = thread ? raii_init() : unique_init();
    nm = ngot = ids = 0; vcd_note("%s scope:", thread ? "thread" : "heap");
    for (i = 0; i < ops; i++) {
        int what = (int)vcd_below(10);
        if (what < 6 || nm == 0) { int nest = vcd_below(5) ? 0 : (int)vcd_below(20); size_t at = (size_t)nm, r = reg(nest); vcd_note(" reg"); VCD_CHECK(r == at, "registration gets index %zu, expected %zu", r, at); continue; }
        int k = vcd_below(3) == 0 ? nm - 1 : (int)vcd_below(nm), id = model[k];
        if (id < 0) continue;
        if (k == nm - 1) nm--; else model[k] = -1;
        if (what < 8) {
            vcd_note(" cancel(%d)", k); int g = ngot;
            if (thread && vcd_below(2)) raii_defer_cancel(k); else raii_deferred_cancel(cur, k);
            VCD_CHECK(ngot == g, "cancelling calls a function");
        } else {
            vcd_note(" fire(%d)", k); int g = ngot; firing = 1;
            if (thread && vcd_below(2)) raii_defer_fire(k); else raii_deferred_fire(cur, k);
            firing = 0;
            VCD_CHECK(ngot == g + 1 && got[g] == id, "firing index %d calls %d functions", k, ngot - g);
        }
    }
    ngot = 0; vcd_note(" release");
    if (thread) raii_deferred_clean(); else raii_delete(cur);
    for (w = 0, i = nm - 1; i >= 0; i--) {
        if (model[i] < 0) continue;
        VCD_CHECK(w < ngot && got[w] == model[i], "call %d of the release is function %d, expected %d", w, w < ngot ? got[w] : -1, model[i]);
        w++;
    }
    VCD_CHECK(w == ngot, "%d calls in the release, expected %d", ngot, w);
}
