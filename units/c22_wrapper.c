/*@vc
prop C22 C25
src except.c raii.c future.c
func thrd_raii_wrapper thrd_returned guard_set guard_reset guard_delete raii_local raii_is_caught raii_message_by ex_local ex_update ex_init
stub ex_throw ex_signal_setup raii_deferred_free raii_destroy ex_unwind_stack unique_init promise_set raii_init
unwind 4
timeout 300
doc the thread of a task, from any state of its thread, any task (returning any value, one of thrd_returning, or throwing any exception) and any deferred functions: the task is called exactly once, with its own argument, inside a guard section; what it returned is published exactly once, after the section ended, told to be of thrd_returning exactly
\ if it is the last one this thread made; an exception not recovered is recorded, with message, in the scope of the promise before that, and nothing is recorded otherwise; the argument block is freed exactly once, the promise is not touched after publishing, nor the arguments at all after the task ran; then the scope of the thread is released, and the thread
\ ends with success. Only the scope of the section, that of the thread and that of the promise are ever used; the scope, block and hooks of the thread that started it are unchanged (C25)
assume rule for sigsetjmp as in c05_try, ex_throw as in c06_throw, raii_deferred_free as in c01_release, the guard section as in c08_guard; raii_init as in c06_data
@*/
#include "vc.h"
#include "raii.h"
#include "vc_atomic.h"
#include "vc_loops.h"
static ex_context_t Root, *self, CreatorCtx, WasCtx; static memory_t W, G, *PS, CS, WasCS; static promise *P; static future_arg *A; static int arrival, nbody, npub, nfreeA, nfreeG, nrel, ndone, ndes, nexit, nini, ncleanup; static bool rec, mk, mkret, hasw, ws0; static void *arg0, *ret; static raii_values_t R;
static const char *e_ex, *e_panic; static char nm[2], ms[2]; static thrd_func_t fn0; static void *ar0;
static raii_values_t **slot;
bool is_empty2(void *p) { return p == NULL; }
int simd_strcmp(const char *a, const char *b) { CHECK(a == b, "the message of the scope is compared with itself"); return 0; }
void ex_signal_setup(void) { exception_signal_set = true; }
int atexit(void (*f)(void)) { return 0; }
void rpmalloc_init(void) { CHECK(nbody == 0, "the allocator of the thread, first"); nini++; } void rpmalloc_thread_finalize(int r) { CHECK(ndes == 1, "after the scope of the thread is released"); ncleanup++; }
unique_t *unique_init(void) { CHECK(nini == 1, "allocates"); return &G; }
memory_t *raii_init(void) { if (!thrd_raii_tls) { thrd_raii_tls = &W; W.arena = ar0 = NULL; } return thrd_raii_tls; }
#define ARMED (((raii_array_t *)&G.defer)->type == RAII_DEF_ARR)
void raii_destroy(void) { CHECK(thrd_raii_tls == &W && nfreeG == 1 && npub == 1 && ndes == 0, "the scope of the thread, once, at the end"); ndes++; thrd_raii_tls = NULL; }
void raii_deferred_free(memory_t *s)
{
    CHECK(s == &G && nfreeG == 0 && npub == 0, "the scope of the section is released before anything is published"); if (!ARMED) return;
    if (ndone == 0) ndone = 1;
    if (arrival && nd_bool()) { self->state = ex_catch_st; rec = true; } else if (arrival == 3) rec = false;
    G.is_recovered = rec || nd_bool(); if (!arrival) rec = false;
    ((raii_array_t *)&G.defer)->type = -1; ((raii_array_t *)&G.defer)->elements = 0; ((raii_array_t *)&G.defer)->base = NULL; G.is_protected = false;
}
void vc_free(void *p)
{
    if (p == &G) { CHECK(nfreeG == 0 && ndone == 1 && !ARMED, "the section, once, after its deferred functions"); nfreeG++; return; }
    CHECK(p == (void *)A && nfreeA == 0, "the argument block, once, nothing else"); nfreeA++; __CPROVER_deallocate(p);
}
static void *task(args_t a)
{
    CHECK(arrival == 0 && nbody == 0, "the task is called once"); CHECK((void *)a == arg0, "with its own argument"); nbody++;
    CHECK(ex_local() == self && self->is_guarded && self->state == 0 && raii_local() == &W && W.arena == &G && exception_setup_func == guard_set && exception_unwind_func == (ex_unwind_func)raii_deferred_free, "inside a guard section"); CHECK(PS->err == NULL, "no error yet");
    unique_t *a_scope_of = &G; G.is_protected = nd_bool(); if (mk) *slot = &R; ret = mkret ? (void *)&R : (void *)nd_size(); ASSUME(mkret || ret != &R); return ret;
}
void promise_set(promise *p, void_t res, bool is_args)
{
    CHECK(p == P && npub == 0, "published once"); CHECK(nbody == (arrival == 0) && nfreeG == 1 && thrd_except_tls == &Root, "after the section ended");
    bool unhandled = (arrival & ex_throw_st) && !rec;
    if (arrival == 0) { CHECK(res == ret, "what the task returned"); if (res) CHECK(is_args == (mk && mkret), "of thrd_returning exactly if it is"); REACH("returned"); if (res && is_args) REACH("of thrd_returning"); }
    else CHECK(res == NULL, "nothing, if it threw");
    CHECK(unhandled ? PS->err == (void *)e_ex && PS->panic == e_panic : PS->err == NULL, "the exception not recovered is recorded, with message, before; none otherwise");
    if (unhandled) REACH("an exception"); if (arrival == 2) REACH("recovered");
    npub++; __CPROVER_deallocate(PS); __CPROVER_deallocate(P);
}
void thrd_exit(int r) { CHECK(r == 0 && nexit == 0 && npub == 1 && nfreeA == 1 && ndes == 1 && ncleanup == 1, "the thread ends, everything is released"); CHECK(CreatorCtx.state == WasCtx.state && CreatorCtx.stack == WasCtx.stack && CreatorCtx.ex == WasCtx.ex && CreatorCtx.data == WasCtx.data, "the block of the other thread is unchanged");
    CHECK(CS.err == WasCS.err && CS.panic == WasCS.panic && CS.arena == WasCS.arena && CS.protector == WasCS.protector && CS.is_protected == WasCS.is_protected && CS.is_recovered == WasCS.is_recovered && CS.mid == WasCS.mid && CS.backtrace == WasCS.backtrace, "the scope of the other thread is unchanged"); REACH("ends"); nexit++; ASSUME(0); }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt) { CHECK(0, "nothing is thrown out of the thread"); ASSUME(0); }
bool va_set(volatile void *f, int o) { return false; } bool va_load(volatile void *f, int o) { return false; } void va_clear(volatile void *f, int o) { } void va_lock(volatile void *m) { } void va_unlock(volatile void *m) { }
#include "src_except.c"
#include "src_raii.c"
#include "src_future.c"
int __sigsetjmp(struct __jmp_buf_tag *b, int s)
{
    self = thrd_except_tls; CHECK((char *)b == (char *)&self->buf && self != &Root && self->next == &Root, "the section resumes here");
    arrival = nd_i32(); ASSUME(arrival >= 0 && arrival <= 3);
    if (arrival) {
        e_ex = nm; e_panic = nd_bool() ? ms : NULL; self->is_guarded = true; self->ex = e_ex; self->panic = e_panic; self->data = &G; self->is_unwind = nd_bool(); self->state = nd_i32();
        G.err = (void *)e_ex; G.panic = e_panic; G.is_recovered = nd_bool(); if (nd_bool()) *slot = &R;
        if (arrival == 2 || nd_bool()) { ndone = 1; ((raii_array_t *)&G.defer)->type = -1; rec = arrival == 2; } else { G.is_protected = nd_bool(); ndone = nd_bool(); }
    }
    return arrival;
}
void harness(void)
{
    exception_signal_set = nd_bool(); thrd_except_tls = &Root; Root.type = ex_context_st; Root.state = nd_i32(); Root.is_raii = nd_bool(); hasw = nd_bool(); thrd_raii_tls = hasw ? &W : NULL; W.arena = ar0 = NULL; exception_setup_func = NULL; exception_unwind_func = NULL;
    CreatorCtx.state = nd_i32(); CreatorCtx.ex = (char *)nd_size(); CreatorCtx.data = &CS; WasCtx = CreatorCtx; CS.err = (void *)nd_size(); CS.panic = (char *)nd_size(); CS.mid = nd_size(); CS.is_protected = nd_bool(); WasCS = CS;
    ((raii_array_t *)&G.defer)->type = RAII_DEF_ARR; slot = thrd_returned(); *slot = nd_bool() ? &R : NULL; mk = nd_bool(); mkret = mk && nd_bool();
    PS = (memory_t *)vc_new(sizeof(memory_t), 1); P = (promise *)vc_new(sizeof(promise), 1); A = (future_arg *)vc_new(sizeof(future_arg), 0); ASSUME(PS && P && A); PS->err = NULL; P->scope = PS; P->type = RAII_PROMISE;
    fn0 = task; arg0 = (void *)nd_size(); A->type = RAII_FUTURE_ARG; A->func = task; A->arg = arg0; A->value = P; A->queue = NULL;
    thrd_raii_wrapper(A); CHECK(nexit == 0 && npub == 1, "published");
}
