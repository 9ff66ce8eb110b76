/*@vc
prop C22 C25
src future.c
func promise_create promise_set promise_get
cases FN 0 2
unwind 2
timeout 300
loop promise_get 0
dec B
inv shared.type == RAII_PROMISE && shared.scope == &PS && (!seen || (done && shared.result == final))
havoc shared seen done B
hcode ASSUME(B >= 0);
doc creating a promise (any allocation or registration failure): not done, unlocked, with a scope of its own that is registered for release with the scope of the creating thread; publishing any result: a value of its own, zero but for the result returned, allocated in the scope of the promise, or that of thrd_returning, or none; it is
\ complete before the promise becomes done, which happens once, last: afterwards the promise is not touched (it may be gone); waiting (the result is published at any moment, after any number of polls): returns only when done, what was published, and does not miss it
assume the done flag orders memory as the memory order passed to it says (atomics of the compiler); the task publishes after finitely many polls, any number of them (waiting then ends, proved); calloc_full and raii_deferred as in C01, C03
@*/
#include "vc.h"
#include "raii.h"
#include "vc_atomic.h"
static memory_t CS, PS, *at; static promise *P, shared; static raii_values_t *final, *made, args_res; static bool done, seen, held; static long B;   /* polls until it is published */ static int nset, nreg, ndel, ncall, panicked;
bool is_empty(void *p) { return p == NULL; }
raii_type type_of(void *s) { return ((var_t *)s)->type; }
bool is_type(void *s, raii_type t) { return type_of(s) == t; }
memory_t *raii_init(void) { return &CS; }
memory_t *raii_local(void) { return &CS; }
int atexit(void (*f)(void)) { return 0; }
unique_t *unique_init(void) { return &PS; }
void raii_delete(memory_t *m) { CHECK(m == &PS && nreg == 0 && ndel == 0, "the scope, when it could not be registered"); ndel++; }
void *calloc_default(int c, size_t n) { CHECK(c == 1 && n >= sizeof(promise) && P == NULL, "one promise, in the scope of the thread"); P = (promise *)vc_new(sizeof(promise), 1); ASSUME(P != NULL); return P; }
size_t raii_deferred(memory_t *m, func_t f, void *d) { CHECK(m == &CS && f == (func_t)raii_delete && d == &PS && nreg == 0, "released with the scope of the creating thread"); if (nd_bool()) return (size_t)-1; nreg++; return nd_size() >> 1; }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt) { extern const char EX_NAME(panic)[]; CHECK(FN == 0 && ex == EX_NAME(panic) && ndel == 1 && nreg == 0, "thrown if it cannot be registered, nothing leaks");
#if FN == 0
    REACH("registration fails");
#endif
    ASSUME(0); }
void *calloc_full(memory_t *m, int c, size_t n, func_t f)
{ CHECK(FN == 1 && m == &PS && (size_t)c * n == sizeof(raii_values_t) && f == RAII_FREE && ncall == 0 && nset == 0, "the result belongs to the scope of the promise"); ncall++; made = (raii_values_t *)vc_new(sizeof(raii_values_t), 1); ASSUME(made != NULL); return made; }
#define FLAG(f, p) ((volatile void *)(f) == (volatile void *)&(p)->done)
bool va_set(volatile void *f, int order)
{
    CHECK(FN == 1 && FLAG(f, P) && VA_REL(order), "done, releasing what was written before"); CHECK(nset == 0 && !held, "once, unlocked"); CHECK(P->type == RAII_PROMISE && P->scope == &PS, "as created");
    if (final == NULL && at != NULL) CHECK(P->result == made && made && made->value.object == (void *)at && made->size == 0 && made->extended == NULL, "the value returned is published");
    else CHECK(P->result == final, "the result made, or none, is published");
    nset++; if (at) REACH("published a value"); else if (final) REACH("published a made one"); else REACH("published none");
    __CPROVER_deallocate(P); return false;
}
void va_clear(volatile void *f, int order) { CHECK(FN == 0, "cleared when created"); if (FLAG(f, P)) P->done = 0; else { CHECK((volatile void *)f == (volatile void *)&P->mutex, "of the promise"); P->mutex = 0; } }
void va_lock(volatile void *m) { CHECK(FN == 1 && m == (volatile void *)&P->mutex && !held, "not locked twice"); held = true; }
void va_unlock(volatile void *m) { CHECK(m == (volatile void *)&P->mutex && held, "locked"); held = false; }
/* the task publishes at any moment; a load that acquires then sees the result, another leaves it undefined */
bool va_load(volatile void *f, int order)
{
    CHECK(FN == 2 && FLAG(f, &shared), "polls the flag");
    if (!done) { if (B == 0 || nd_bool()) done = true; else B--; }
    if (done && VA_ACQ(order)) { seen = true; shared.result = final; }
    return done;
}
void thrd_yield(void) { }
#include "vc_loops.h"
#include "src_future.c"
void harness(void)
{
    at = NULL; final = NULL;
#if FN == 0
    promise *p = promise_create(); CHECK(p == P && p->type == RAII_PROMISE && p->done == 0 && p->mutex == 0 && p->result == NULL, "a fresh promise"); CHECK(p->scope == &PS && nreg == 1 && ndel == 0, "with its own scope, released with that of the thread"); REACH("created");
#elif FN == 1
    P = (promise *)vc_new(sizeof(promise), 1); ASSUME(P != NULL); P->type = RAII_PROMISE; P->scope = &PS;
    bool ia = nd_bool(); void *r = NULL; if (nd_bool()) { if (ia) r = final = &args_res; else { r = (void *)nd_size(); at = (memory_t *)r; } }
    promise_set(P, r, ia); CHECK(nset == 1 && ncall == (at != NULL), "published once, nothing more is allocated"); REACH("set");
#else
    B = (long)nd_size(); ASSUME(B >= 0); shared.type = RAII_PROMISE; shared.scope = &PS; final = nd_bool() ? &args_res : NULL; done = nd_bool(); shared.result = (raii_values_t *)nd_size();
    raii_values_t *r = promise_get(&shared); CHECK(done && seen && r == final, "what was published, after it was"); if (r) REACH("a result"); else REACH("none");
#endif
}
