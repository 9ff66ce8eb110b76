/*@vc
prop C08
src except.c raii.c
func guard_set guard_reset guard_delete raii_local raii_is_caught raii_message_by raii_delete ex_local ex_update ex_init
stub ex_throw ex_signal_setup raii_deferred_free unique_init raii_destroy ex_unwind_stack
cases KIND 0 4
unwind 4
timeout 300
doc the guard macros, expanded at a use, for each way to end a section (guarded, guarded with break, unguarded(result), _return(value), guarded_exception): the body runs with the section's own scope and hooks and its block active; on every way out, an exception at any
\ place included, a deferred function (arbitrary) of the section has run exactly once and its memory is freed before the scope of the section, which is freed exactly once; then the enclosing scope, hooks and block are as before; the exception is passed on unchanged exactly
\ if no deferred function recovered it (guarded_exception: stored in the error of the caller instead), nothing else is
assume rule for sigsetjmp as in c05_try; ex_throw as in c06_throw: what it unwinds of the section, by the hook, has run completely (a throw meanwhile terminates); a deferred function that recovers sets the state of the block (c05_caught)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
#undef ex_throw_loc
static ex_context_t Outer, *self, Was; static memory_t S, G, Err; static ex_ptr_t prot; static void *ar0; static ex_setup_func sf0; static ex_unwind_func uf0; static bool sig0, left0, rec, thrown, stored, pending0; static int arrival, nbody, nset, ndone, nfreeG, ninit, st_free;
static const char *e_ex, *e_panic, *e_file, *e_fn; static int e_line; static char nm[2], ms[2];
int simd_strcmp(const char *a, const char *b) { CHECK(a == b, "the message of the scope is compared with itself"); return 0; }   /* c13_strcmp */
void ex_signal_setup(void) { CHECK(!sig0, "set up once"); nset++; exception_signal_set = true; }
memory_t *unique_init(void) { CHECK(ninit == 0, "one scope for the section"); ninit++; return &G; }    /* c01_scope: zeroed, armed */
#define ARMED (((raii_array_t *)&G.defer)->type == RAII_DEF_ARR)
void raii_destroy(void) { }
/* c01_release: on an armed scope every function of the list runs once, then the list is empty and its memory freed; may throw or recover on the way */
void raii_deferred_free(memory_t *s)
{
    CHECK(s == &G && nfreeG == 0, "the scope of the section is released, before it is freed");
    CHECK(thrd_except_tls == self && self->is_guarded && self->next == &Outer, "an exception of a deferred function comes back to the section"); CHECK(thrd_raii_tls == &S && S.arena == &G && exception_setup_func == guard_set && exception_unwind_func == (ex_unwind_func)raii_deferred_free, "which still owns scope and hooks");
    CHECK(self->state == arrival, "an exception of a deferred function is told apart by the state"); 
    if (!ARMED) return;
    if (ndone == 0) ndone = 1;
    if (arrival && nd_bool()) { self->state = ex_catch_st; rec = true; }
    else if (arrival == 3) rec = false;
    G.is_recovered = rec || nd_bool(); if (!arrival) { rec = false; }
    ((raii_array_t *)&G.defer)->type = -1; ((raii_array_t *)&G.defer)->elements = 0; ((raii_array_t *)&G.defer)->base = NULL; G.is_protected = false;
}
void vc_free(void *p) { CHECK(p == &G, "only the scope of the section is freed"); CHECK(nfreeG == 0 && ndone == 1 && !ARMED, "once, after everything of it is released"); nfreeG++; }
#include "src_except.c"
#include "src_raii.c"
int __sigsetjmp(struct __jmp_buf_tag *b, int s)
{
    self = thrd_except_tls; CHECK((char *)b == (char *)&self->buf && self != &Outer && self->next == &Outer, "the section resumes here");
    arrival = nd_i32(); ASSUME(arrival >= 0 && arrival <= 3);
    if (arrival) {
        e_ex = nm; e_panic = nd_bool() ? ms : NULL; e_file = (char *)nd_size(); e_fn = (char *)nd_size(); e_line = nd_i32(); self->is_guarded = true;
        self->ex = e_ex; self->panic = e_panic; self->file = e_file; self->function = e_fn; self->line = e_line; self->data = &G; self->is_unwind = nd_bool(); self->state = nd_i32();
        G.err = (void *)e_ex; G.panic = e_panic; G.is_recovered = nd_bool();
        if (arrival == 2 || nd_bool()) { ndone = 1; ((raii_array_t *)&G.defer)->type = -1; rec = arrival == 2; } else { G.is_protected = nd_bool(); ndone = nd_bool(); }   /* released while unwinding, or run in part */
    }
    return arrival;
}
static void body(void)
{
    CHECK(arrival == 0, "the body runs once"); nbody++;
    CHECK(ex_local() == self && self->is_guarded && self->state == 0 && self->next == &Outer && !self->is_raii, "the block of the section is active");
    CHECK(raii_local()->arena == &G && exception_setup_func == guard_set && exception_unwind_func == (ex_unwind_func)raii_deferred_free, "the section owns scope and hooks");
    CHECK(G.status == RAII_GUARDED_STATUS, "the scope of a section"); unique_t *a_scope_of = &G; G.is_protected = nd_bool();
}
static void outside(void)
{
    CHECK(ndone == 1 && nfreeG == 1 && ninit == 1, "the deferred functions have run once and everything is freed before control leaves the section");
    CHECK(thrd_except_tls == &Outer, "the enclosing block is active again"); CHECK(thrd_raii_tls == &S && S.arena == ar0 && exception_setup_func == sf0 && exception_unwind_func == uf0, "the enclosing scope and hooks are as before");
    CHECK(Outer.ex == Was.ex && Outer.panic == Was.panic && Outer.state == Was.state && Outer.stack == Was.stack && Outer.next == Was.next && Outer.is_guarded == Was.is_guarded && Outer.is_raii == Was.is_raii && Outer.data == Was.data, "the enclosing block is unchanged");
    bool unhandled = (arrival & ex_throw_st) && !rec;
#if KIND == 4
    CHECK(!thrown, "nothing is passed on"); CHECK((Err.err == (void *)e_ex && Err.panic == e_panic) == unhandled || !arrival, "an exception is stored"); CHECK(unhandled || (Err.err == NULL && Err.panic == NULL), "a recovered one, or none, is not");
#else
    CHECK(thrown == unhandled, "an exception is passed on unless a deferred function recovered it");
#endif
    CHECK(nbody == (arrival == 0) && nset == !sig0, "the body runs once"); if (arrival == 0) REACH("no exception"); if (unhandled) REACH("passed on"); if (arrival == 2) REACH("recovered while unwinding"); if (arrival == 3 && !rec) REACH("thrown after a recovery"); if (arrival == 1 && rec) REACH("recovered in the section");
}
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt)
{ CHECK(arrival && ex == e_ex && msg == e_panic && file == e_file && line == e_line && fn == e_fn && bt, "the exception is passed on unchanged"); thrown = true; outside(); ASSUME(0); }
#if KIND == 0
static int section(void) { guard { body(); } guarded; return 1; }
#elif KIND == 1
static int section(void) { guard { body(); break; CHECK(0, "left"); } guarded; return 1; }
#elif KIND == 2
static int section(void) guard { body(); } unguarded(1)
#elif KIND == 3
static int section(void) { guard { body(); _return(7) } guarded; return 1; }
#else
static int section(void) { guard { body(); } guarded_exception(&Err); return 1; }
#endif
static void f0(ex_context_t *c, const char *e, const char *m) { }
static void u0(void *d) { }
void harness(void)
{
    sig0 = exception_signal_set = nd_bool(); thrd_except_tls = &Outer; thrd_raii_tls = &S; S.arena = ar0 = nd_bool() ? NULL : (void *)nd_size(); exception_setup_func = sf0 = nd_bool() ? f0 : NULL; exception_unwind_func = uf0 = nd_bool() ? u0 : NULL;
    Outer.type = ex_context_st; Outer.ex = (char *)nd_size(); Outer.panic = (char *)nd_size(); Outer.state = nd_i32(); Outer.stack = nd_bool() ? &prot : NULL; Outer.next = (void *)nd_size(); Outer.is_guarded = nd_bool(); Outer.is_raii = nd_bool(); Outer.data = Outer.prev = nd_bool() ? (void *)&S : NULL; Was = Outer;
    ((raii_array_t *)&G.defer)->type = RAII_DEF_ARR; G.status = nd_i32();
    int r = section();
    CHECK(r == (KIND == 3 && arrival == 0 ? 7 : 1), "the value asked for is returned"); outside();
}
