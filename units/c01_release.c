/*@vc
prop C01
src raii.c
func raii_deferred_free raii_deferred_clean raii_delete raii_deferred_run raii_array_reset
stub raii_destroy
nloops raii_deferred_run 1
loop raii_deferred_run 0
 havoc L->elements L->base L->type S->is_recovered S->mid S->is_protected S->protector gdone gB budget
 hcode list_any(); S->protector = nd_bool() ? &vc_prot : NULL;
 inv WF() && budget <= LMAX && (S->protector == NULL || S->protector == &vc_prot)
 inv gdone == 0 || gdone == 1
 inv gdone == 0 ==> gk < L->elements && SAMEENT(ENT(gk), ek)
 begin top_ok();
 dec (long)(2 * budget + L->elements)
unwind 2
cases KIND 0 3
timeout 600
doc releasing a scope with any list of n < 2^40 entries: the entry at index gk (arbitrary, active) is called exactly once, by its function with its data,
\ after every later registration and no longer in the list when it is called (so also exactly once if it throws), whatever the called functions register,
\ allocate or recover meanwhile (the list moves); afterwards the list is empty and its block and the protector are freed exactly once, the rest of the scope unchanged;
\ releasing terminates if the called functions register finitely often; a heap scope is freed once by raii_delete
assume the data pointer of the watched entry differs from that of the other entries (identifies its call)
@*/
#include "vc.h"
#include "raii.h"
void raii_destroy(void) { }
static void cb_a(void *), cb_b(void *);
static ex_ptr_t vc_prot; static size_t budget; static int gdone, nfree_prot, nfree_scope, nfree_list; static defer_func_t ek;
static void top_ok(void); static void cb_none(void *d) { (void)d; }
#include "vc_list.h"
#include "vc_loops.h"
#include "src_raii.c"
static void top_ok(void)
{
    if (L->elements > 0) {
        defer_func_t t = ENT(L->elements - 1);
        ASSUME(t.func == cb_a || t.func == cb_b || t.func == cb_none);
        ASSUME(t.data != ek.data || (L->elements - 1 == gk && gdone == 0));
    }
}
static void called(func_t f, void *d)
{
    if (d == ek.data) {
        CHECK(f == ek.func, "the registered function is called with the registered data");
        CHECK(gdone == 0, "a registered function is called at most once");
        CHECK(L->elements <= gk, "later registrations have run, the function is no longer in the list");
        if (gdone < 2) gdone++;
    }
    size_t m = nd_size(), e = L->elements + m; ASSUME(m <= budget && e <= LMAX);
    if (m > 0 || nd_bool()) {           /* the function registers m more, the list moves */
        void *old = L->base; size_t c = nd_size(); ASSUME(c <= 2 * LMAX && c >= UP16(e));
        defer_func_t *q = list_new(c); ASSUME(q != NULL);
        if (old && gk < L->elements) q[gk] = ((defer_func_t *)old)[gk];
        L->base = q; L->elements = e; gB = q; budget -= m;
        if (nd_bool()) __CPROVER_deallocated = old;
        if (m > 3) REACH("registers while running");
    }
    if (nd_bool()) { S->protector = &vc_prot; S->is_protected = true; S->mid = nd_size(); }
    S->is_recovered = nd_bool();
}
static void cb_a(void *d) { called(cb_a, d); }
static void cb_b(void *d) { called(cb_b, d); }
void ex_unprotected_ptr(ex_ptr_t *p) { (void)p; }
void vc_free(void *p)
{
    if (!p) return;
    if (p == gB) { nfree_list++; gB = NULL; }
    else if (p == &vc_prot) nfree_prot++;
    else if (p == S && KIND == 3) { nfree_scope++; CHECK(gB == NULL, "the scope is freed last"); }
    else CHECK(0, "only blocks of the scope are freed");
}
void harness(void)
{
    scope_any(KIND >= 2);
    S->protector = nd_bool() ? &vc_prot : NULL; ASSUME(vc_prot.type != ex_protected_st);
    budget = nd_size(); ASSUME(budget <= LMAX);
    ASSUME(gk < gn); ek = ENT(gk); ASSUME(ek.func == cb_a || ek.func == cb_b);
    S->err = (void *)nd_size();
    vc_reg(S, sizeof(memory_t));
    void *err = S->err, *arena = S->arena; const char *panic = S->panic; bool isa = S->is_arena; int st = S->status; bool had = S->protector != NULL || L->base != NULL;
    if (KIND == 0 || KIND == 2) raii_deferred_free(S);
    else if (KIND == 1) raii_deferred_clean();
    else raii_delete(S);
    CHECK(gdone == 1, "every registered function has been called exactly once");
    CHECK(gB == NULL && nfree_list <= 1, "the list block is freed once");
#if KIND == 3
    CHECK(nfree_scope == 1, "the scope is freed once"); REACH("deleted");
#else
    CHECK(L->elements == 0 && L->base == NULL && (L->type == RAII_DEF_ARR || L->type == 0), "the list is empty afterwards");
    CHECK(nfree_prot <= 1 && S->protector == NULL, "the protector is freed at most once and forgotten");
    CHECK(S->err == err && S->arena == arena && S->panic == panic && S->is_arena == isa && S->status == st, "the rest of the scope is unchanged");
    raii_deferred_free(S);
    CHECK(gdone == 1 && nfree_list <= 1 && nfree_prot <= 1, "releasing again does nothing");
    REACH("released");
    if (nfree_prot) REACH("protector freed");
#endif
}
