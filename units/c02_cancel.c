/*@vc
prop C02
src raii.c
func raii_deferred_cancel raii_defer_cancel raii_deferred_fire raii_defer_fire raii_deferred_internal
stub raii_destroy
unwind 2
cases KIND 0 5
doc cancelling and firing index i of any list of n < 2^40 entries, on the thread scope and on a heap scope: every other entry (index gk arbitrary) keeps function, data,
\ check and index; entry i is out of the list or replaced by one whose call has no effect; firing calls exactly the registered function with its data once, after it left the list, whatever it registers
assume the fired function may register any number of functions (the list moves) but does not cancel or fire others
@*/
#include "vc.h"
#include "raii.h"
void raii_destroy(void) { }
static void cb_a(void *), cb_b(void *);
#include "vc_list.h"
#include "src_raii.c"
static defer_func_t ei, ek; static size_t gi; static int calls, phase; static size_t more;
static bool inert(void)
{
    if (L->elements <= gi) return true;
    if (more && gi == gn - 1) return true;      /* the slot was taken off and reused by what the fired function registered */
    defer_func_t t = ENT(gi);
    ASSUME(t.func != NULL);
    if (t.func == cb_a || t.func == cb_b || t.check != NULL) return false;
    int c = calls; t.func(t.data);
    return calls == c;
}
static void called(func_t f, void *d)
{
    calls++;
    if (phase == 0) { CHECK(0, "cancelling calls nothing"); return; }
    if (phase == 2) return;
    CHECK(f == ei.func && d == ei.data, "the registered function is called with its data");
    CHECK(inert(), "it is no longer registered when it runs");
    size_t m = nd_size(); ASSUME(m <= LMAX); more = m;
    if (m) {
        void *old = L->base; size_t e = L->elements + m, c = nd_size(); ASSUME(e <= LMAX && c <= 2 * LMAX && c >= UP16(e));
        defer_func_t *q = list_new(c); ASSUME(q != NULL);
        if (old && gk < L->elements) q[gk] = ((defer_func_t *)old)[gk];
        if (old && gi < L->elements) q[gi] = ((defer_func_t *)old)[gi];
        L->base = q; L->elements = e; gB = q;
        if (nd_bool()) __CPROVER_deallocated = old;
    }
}
static void cb_a(void *d) { called(cb_a, d); }
static void cb_b(void *d) { called(cb_b, d); }
void vc_free(void *p) { CHECK(0, "nothing is freed"); }
void ex_unprotected_ptr(ex_ptr_t *p) { (void)p; }
void harness(void)
{
    scope_any(KIND & 1);
    gi = nd_size(); ASSUME(gi < gn && gk < gn && gk != gi);
    ei = ENT(gi); ek = ENT(gk); ASSUME(ei.func == cb_a || ei.func == cb_b);
    void *prot = S->protector, *err = S->err, *b = gB; bool last = gi == gn - 1;
    if (KIND == 0 || KIND == 1) raii_deferred_cancel(S, gi);
    else if (KIND == 2 || KIND == 3) { phase = 1; raii_deferred_fire(S, gi); }
    else if (KIND == 4) { S = (memory_t *)&vc_thread_scope; thrd_raii_tls = S; raii_defer_cancel(gi); }
    else { phase = 1; thrd_raii_tls = S; raii_defer_fire(gi); }
    CHECK(calls == (phase == 1), "cancel calls nothing, fire calls once");
    phase = 2;
    CHECK(WF(), "the list is well formed");
    CHECK(gk < L->elements && SAMEENT(ENT(gk), ek), "every other registration keeps function, data and place");
    CHECK(L->elements <= gn + more, "nothing is added");
    CHECK(inert(), "the registration is gone");
    CHECK(S->protector == prot && S->err == err, "the rest of the scope is unchanged");
    if (last) REACH("last"); else REACH("not the last");
#if KIND == 2
    if (more) REACH("fired function registers");
#endif
}
