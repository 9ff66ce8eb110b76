/* C06: throws are recorded in, and resume, the innermost block; without one, or while unwinding, the process terminates in order */
#include "vcd.h"
#include "raii.h"
#include <unistd.h>
int vcd_fork_each = 1;
extern const char EX_NAME(out_of_memory)[], EX_NAME(range_error)[];
/* sh: 0 sequence counter, 1 runs of the termination callback, 2 of the interrupt callback, 3 expected deferred functions, 4 expected termination callbacks, 5 expected interrupt callbacks, 6 mode, 8.. runs of the deferred functions */
enum { SEQ, NT, NC, ED, ET, EC, MODE, REL, D0 };
static const char *nm, *fl, *fn, *ms; static int ln, depth, again, how, arrivals, handled_at;
static void deferred(void *d) { vcd_sh[D0 + (int)(intptr_t)d]++; }
static void deferred_again(void *d) { vcd_sh[D0 + (int)(intptr_t)d]++; ex_throw(EX_NAME(range_error), "f", 1, "g", NULL, NULL); }
static void on_term(void) { vcd_sh[NT]++; if (again) ex_throw(EX_NAME(range_error), "f", 1, "g", NULL, NULL); }
static void on_ctrl(void) { vcd_sh[NC]++; }
static void rel_throw(void *p) { vcd_sh[REL]++; ex_throw(EX_NAME(range_error), "x", 2, "y", "again", NULL); }
static void do_throw(void) { if (how == 3) raise(SIGINT); else if (how == 4) raise(SIGTERM); else ex_throw(nm, fl, ln, fn, ms, NULL); vcd_fail("a throw returned"); }
static void nest(int k)
{
    if (k == depth) { do_throw(); }
    ex_context_t *outer = ex_init();
    if (how == 5 && k > 0 && vcd_below(3) == 0) {   /* a section in between */
        guard { raii_deferred(raii_local()->arena, deferred, (void *)(intptr_t)20); vcd_sh[D0 + 20] = 0; nest(k + 1); } guarded;
        return;
    }
    try { void *p = (void *)1; if (how == 2 && k == depth - 1) { protected(p, rel_throw); do_throw(); } else nest(k + 1); }
    catch_any {
        arrivals++;
        if (k == depth - 1) {
            VCD_CHECK(ex_init() != outer && ex_init()->next == outer, "the innermost block is the active one");
            ex_context_t *c = ex_init();
            if (c->ex != nm || c->panic != ms || c->file != fl || c->line != ln || c->function != fn) vcd_fail("recorded: %p %p %p %d %p", c->ex, c->panic, c->file, c->line, c->function);
            VCD_CHECK(err == nm, "the exception of the handler");
        } else if (how != 5) vcd_fail("resumed an outer block");
    } end_try;
    VCD_CHECK(ex_init() == outer, "enclosing block not restored");
}
void vcd_trial(uint64_t n)
{
    int i, nd = (int)vcd_below(8), raii_in_try = 0;
    nm = vcd_below(2) ? EX_NAME(out_of_memory) : EX_NAME(range_error); ms = vcd_below(2) ? NULL : "a message"; fl = vcd_below(2) ? "file.c" : "other.c"; fn = vcd_below(2) ? "f" : NULL; ln = (int)vcd_biased();
    how = (int)vcd_below(6); depth = how == 0 || how == 3 || how == 4 ? 0 : how == 2 ? 1 + (int)vcd_below(4) : how == 1 ? 1 + (int)vcd_below(6) : 1 + (int)vcd_below(6);
    int scope = (int)vcd_below(4), mem = (int)vcd_below(3), t = (int)vcd_below(2), c = (int)vcd_below(2), sig = (int)vcd_below(3) == 0;
    again = t && vcd_below(2);
    vcd_note("%s, depth %d, %s, scope %d with %d deferred functions, memory %d, callbacks %d %d, earlier signal %d, again %d, line %d, message %d", how == 0 ? "no block" : how == 2 ? "while unwinding" : how == 3 ? "SIGINT" : how == 4 ? "SIGTERM" : how == 5 ? "sections" : "blocks", depth, nm, scope, nd, mem, t, c, sig, again, ln, ms != NULL);
    if (how != 5) {                     /* scope: 0 none, 1 and 3 at top, 2 first used inside a block */
        if (scope == 2) { try { raii_init(); } catch_any { } end_try; } else if (scope) raii_init();
        if (how != 1 && scope) { for (i = 0; i < nd; i++) { if (nd > 2 && i == 1 && scope == 3 && how == 0) raii_defer(deferred_again, (void *)(intptr_t)i); else raii_defer(deferred, (void *)(intptr_t)i); } if (mem) malloc_default(10); }
    }
    ex_signal_setup();
    if (sig) { int got = 0; try { raise(SIGFPE); } catch (sig_fpe) { got = 1; } end_try; VCD_CHECK(got, "signal not thrown"); }
    if (how != 1 && how != 5) {
        exception_terminate_func = t ? on_term : NULL; exception_ctrl_c_func = c ? on_ctrl : NULL;
        vcd_sh[ED] = scope ? nd : 0; vcd_sh[ET] = t; vcd_sh[EC] = c && how == 3; vcd_sh[MODE] = 1;
        vcd_expect_exit(EXIT_FAILURE);
    }
    nest(0);
    if (how == 1) { VCD_CHECK(arrivals == 1, "resumed %d times", arrivals); }
    vcd_end();
}
const char *vcd_after(int status)
{
    static char b[200]; int i;
    if (!vcd_sh[MODE]) return NULL;
    if (status != EXIT_FAILURE) { sprintf(b, "exit status %d", status); return b; }
    for (i = 0; i < 8; i++) if (vcd_sh[D0 + i] != (i < vcd_sh[ED])) { sprintf(b, "deferred function %d of the thread scope ran %d times", i, vcd_sh[D0 + i]); return b; }
    if (vcd_sh[NT] != vcd_sh[ET]) { sprintf(b, "termination callback called %d times, expected %d", vcd_sh[NT], vcd_sh[ET]); return b; }
    if (vcd_sh[NC] != vcd_sh[EC]) { sprintf(b, "interrupt callback called %d times, expected %d", vcd_sh[NC], vcd_sh[EC]); return b; }
    return NULL;
}
