/*@vc
prop C06 C08
src raii.c
func raii_unwind_set guard_set guard_reset guard_delete raii_local
stub raii_init is_guard
unwind 2
doc the hooks a throw calls: the thread scope (raii_unwind_set) or the scope of the guard section (guard_set) gets name and message of the exception, becomes the owner of the context, the previous owner kept, and is released exactly if it owns memory; guard_reset restores the enclosing scope, owner and hooks; guard_delete frees the scope of a section exactly once and nothing else
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
static ex_context_t C; static memory_t S, G; static int nfree; static bool isg;
memory_t *raii_init(void) { return &S; }
bool is_guard(void *p) { CHECK(p == &G, "the scope of the section"); return isg; }
bool is_empty(void *p) { return p == NULL; }
/* c06_data */
void ex_swap_set(ex_context_t *c, void *d) { c->prev = c->data; c->data = d; }
void ex_swap_reset(ex_context_t *c) { c->data = c->prev; }
void ex_unwind_set(ex_context_t *c, bool f) { c->is_unwind = f; }
ex_context_t *ex_local(void) { return &C; }
ex_context_t *ex_init(void) { return &C; }
ex_setup_func exception_setup_func; ex_unwind_func exception_unwind_func;
void vc_free(void *p) { CHECK(p == &G && isg && nfree == 0, "the scope of the section is freed once"); nfree++; }
#include "src_raii.c"
#define SAMECTX (C.ex == o.ex && C.panic == o.panic && C.state == o.state && C.next == o.next && C.stack == o.stack && C.is_raii == o.is_raii && C.unstack == o.unstack && C.caught == o.caught && C.type == o.type)
#define SAMESC(a, b) (a.arena == b.arena && a.is_protected == b.is_protected && a.is_recovered == b.is_recovered && a.protector == b.protector && a.status == b.status && a.mid == b.mid && a.is_arena == b.is_arena)
static void f0(ex_context_t *c, const char *e, const char *m) { } static void u0(void *d) { }
void harness(void)
{
    C.data = (void *)nd_size(); C.prev = (void *)nd_size(); C.is_unwind = nd_bool(); C.ex = (char *)nd_size(); C.panic = (char *)nd_size(); C.state = nd_i32(); C.next = (void *)nd_size(); C.stack = (void *)nd_size(); C.is_raii = nd_bool(); C.is_guarded = nd_bool(); C.unstack = nd_i32(); C.caught = nd_i32(); C.type = nd_i32();
    S.err = (void *)nd_size(); S.panic = (char *)nd_size(); S.is_protected = nd_bool(); S.is_recovered = nd_bool(); S.arena = &G; S.protector = (void *)nd_size(); S.status = nd_i32(); S.mid = nd_size();
    G.err = (void *)nd_size(); G.panic = (char *)nd_size(); G.is_protected = nd_bool(); G.is_recovered = nd_bool(); G.arena = (void *)nd_size(); G.protector = (void *)nd_size(); G.status = nd_i32(); G.mid = nd_size(); G.is_arena = nd_bool();
    thrd_raii_tls = &S; isg = nd_bool();
    ex_context_t o = C; memory_t os = S, og = G; const char *e = (char *)nd_size(), *m = (char *)nd_size(); int k = nd_i32();
    if (k == 0) {
        raii_unwind_set(&C, e, m);
        CHECK(S.err == (void *)e && S.panic == m && SAMESC(S, os), "the thread scope knows name and message");
        CHECK(C.data == &S && C.prev == o.data && C.is_unwind == S.is_protected && C.is_guarded == o.is_guarded && SAMECTX, "it owns the context and is released exactly if it owns memory");
        CHECK(G.err == og.err && G.panic == og.panic && SAMESC(G, og), "the scope of the section is unchanged"); REACH("thread scope");
    } else if (k == 1) {
        guard_set(&C, e, m);
        CHECK(G.err == (void *)e && G.panic == m && SAMESC(G, og), "the scope of the section knows name and message");
        CHECK(C.data == &G && C.prev == o.data && C.is_unwind == G.is_protected && C.is_guarded && SAMECTX, "it owns the context and is released exactly if it owns memory");
        CHECK(S.err == os.err && S.panic == os.panic && SAMESC(S, os), "the thread scope is unchanged"); REACH("section");
    } else if (k == 2) {
        void *a = (void *)nd_size(); bool h = nd_bool(), u = nd_bool(); exception_setup_func = guard_set; exception_unwind_func = u0;
        guard_reset(a, h ? f0 : NULL, u ? u0 : NULL);
        CHECK(S.arena == a && C.data == o.prev && exception_setup_func == (h ? f0 : (ex_setup_func)NULL) && exception_unwind_func == (u ? u0 : (ex_unwind_func)NULL), "the enclosing scope, owner and hooks are back");
        CHECK(S.err == os.err && S.panic == os.panic && S.is_protected == os.is_protected && S.protector == os.protector && SAMECTX, "nothing else changes"); REACH("reset");
    } else {
        guard_delete(&G);
        CHECK(nfree == isg, "the scope of a section is freed, nothing else"); REACH("delete"); CHECK(S.err == os.err && SAMESC(S, os) && SAMECTX, "nothing else changes");
    }
}
