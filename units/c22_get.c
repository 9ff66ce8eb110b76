/*@vc
prop C22
src future.c
func thrd_get promise_close future_close
stub promise_get
cases KIND 0 1
unwind 2
timeout 300
doc waiting for any future, any result or none, any error or none, a join that may fail: returns after the promise is done; the future is joined once and released exactly once, after that; the value returned is that published, zero if none (all 256 bytes of a value published); an error is
\ thrown with its name and message once everything is released, instead of returning; anything else than a future with a promise is refused, untouched
assume promise_get as in c22_promise; the promise and its scope outlive the future (they belong to the scope of the thread that waits); that the compiler zeroes the whole union for an empty result is observed by the driver (proved for the integer member)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_atomic.h"
static memory_t PS; static promise P; static future F; static raii_values_t V; static int nget, njoin, nfree; static bool has, joined, ok; static void *err; static const char *panic; static ex_backtrace_t *bt0; static thrd_t th; static size_t b; static char w;
bool is_empty(void *p) { return p == NULL; }
raii_type type_of(void *s) { return ((var_t *)s)->type; }
bool is_type(void *s, raii_type t) { return type_of(s) == t; }
memory_t *raii_init(void) { return NULL; }
int atexit(void (*f)(void)) { return 0; }
raii_values_t *promise_get(promise *p) { CHECK(p == &P && ok && nget == 0 && njoin == 0 && P.type == RAII_PROMISE, "waits for the promise of the future, first"); nget++; return has ? &V : NULL; }
int thrd_join(thrd_t t, int *r) { CHECK(t == th && nget == 1 && njoin == 0, "joined once, when done"); njoin++; joined = nd_bool(); if (r) *r = 0; return joined ? thrd_success : thrd_error; }
void vc_free(void *p) { CHECK(p == (void *)F && joined && nfree == 0, "the future is released once, after its thread ended"); nfree++; __CPROVER_deallocate(p); }
void va_clear(volatile void *f, int o) { if (f == (volatile void *)&P.done) { CHECK(nget == 1, "not before it was done"); P.done = 0; } else P.mutex = 0; }
bool va_load(volatile void *f, int o) { return nget == 1; } bool va_set(volatile void *f, int o) { return false; } void va_lock(volatile void *m) { } void va_unlock(volatile void *m) { }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt)
{
    if (ok) {
        CHECK(err != NULL && ex == err && msg == panic && bt == bt0, "the exception of the task, with its message"); CHECK(nget == 1 && njoin == 1 && nfree == joined, "after the future is released");
#if KIND == 0
        REACH("thrown");
#endif
    }
    else { extern const char EX_NAME(logic_error)[]; CHECK(ex == EX_NAME(logic_error), "refused"); CHECK(nget == 0 && njoin == 0 && nfree == 0, "untouched");
#if KIND == 1
    REACH("refused");
#endif
    }
    ASSUME(0);
}
#include "src_future.c"
void harness(void)
{
    F = (future)vc_new(sizeof(struct _future), 0); ASSUME(F != NULL); b = nd_size(); ASSUME(b < sizeof(values_type)); V.value.buffer[b] = w = (char)nd_u8();
    has = nd_bool(); err = nd_bool() ? NULL : (void *)nd_size(); panic = (char *)nd_size(); bt0 = (void *)nd_size(); th = (thrd_t)nd_size();
    PS.err = err; PS.panic = panic; PS.backtrace = bt0; P.scope = &PS; P.type = RAII_PROMISE; P.result = (void *)nd_size(); F->thread = th; F->type = RAII_FUTURE; F->value = &P;
#if KIND == 1
    { int k = nd_i32(); if (k == 0) F->value = NULL; else if (k == 1) { P.type = nd_i32(); ASSUME(P.type != RAII_PROMISE); } else { F->type = nd_i32(); ASSUME(F->type != RAII_FUTURE); } }
    ok = false;
#else
    ok = true;
#endif
    values_type r = thrd_get(F);
    CHECK(ok, "returned for a future only"); CHECK(nget == 1 && njoin == 1 && nfree == joined, "waited, joined and released"); CHECK(err == NULL, "an error does not return");
    if (has) CHECK(r.buffer[b] == w && V.value.buffer[b] == w, "the value published"); else CHECK(r.integer == 0, "zero if none");
#if KIND == 0
    if (has && w) REACH("a value"); if (!has) REACH("none");
#endif
}
