/*@vc
prop C22 C23 C25
src future.c
func thrd_returning thrd_result thrd_is_done thrd_wait thrd_returned
cases FN 0 2
unwind 2
timeout 300
loop thrd_wait 0
dec B
inv (!fin || done) && nyield >= 0 && nyield < 1000000
havoc done fin B
hcode ASSUME(B >= 0); nyield = nd_i32(); ASSUME(nyield >= 0 && nyield < 999999);
doc returning data from a task (any container, block, size): the block and the descriptor are registered for release with the scope of the container, once each, the descriptor has the block as value and data and its size, and is the one remembered for this thread; a result slot gives the value of its result if ready (all 256 bytes), else throws logic_error;
\ waiting polls the done flag of the promise and calls the function given while it is not set (set at any moment), returns only when it is
assume calloc_full and raii_deferred as in C01 and C03; the task publishes after finitely many polls, any number of them (waiting then ends, proved)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_atomic.h"
static memory_t CS; static struct args_s X; static promise P; static struct _future F; static raii_values_t *R; static int nreg, nall, nyield; static void *val; static bool done, fin, ready; static long B;   /* polls until it is published */
bool is_empty(void *p) { return p == NULL; }
int atexit(void (*f)(void)) { return 0; }
size_t raii_deferred(memory_t *m, func_t f, void *d) { CHECK(m == &CS && f == RAII_FREE && d == val && nreg == 0, "the block, for release with the scope of the container"); nreg++; return nd_size() >> 1; }
void *calloc_full(memory_t *m, int c, size_t n, func_t f) { CHECK(m == &CS && (size_t)c * n == sizeof(raii_values_t) && f == RAII_FREE && nall == 0, "a descriptor, in the scope of the container"); nall++; R = (raii_values_t *)vc_new(sizeof(raii_values_t), 1); ASSUME(R != NULL); return R; }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt) { extern const char EX_NAME(logic_error)[]; CHECK(FN == 1 && !ready && ex == EX_NAME(logic_error), "a result that is not ready is refused");
#if FN == 1
    REACH("refused");
#endif
    ASSUME(0); }
bool va_load(volatile void *f, int order) { CHECK(FN == 2 && f == (volatile void *)&P.done, "polls the promise of the future"); if (!done) { if (B == 0 || nd_bool()) done = true; else B--; } fin = done; return done; }
bool va_set(volatile void *f, int o) { CHECK(0, "not set here"); return false; } void va_clear(volatile void *f, int o) { CHECK(0, "not cleared here"); } void va_lock(volatile void *m) { } void va_unlock(volatile void *m) { }
static void pause_(void) { CHECK(!fin, "only while it is not done"); nyield++; }
#include "vc_loops.h"
#include "src_future.c"
void harness(void)
{
#if FN == 0
    struct args_s o; X.type = RAII_ARGS; X.context = &CS; X.n_args = nd_size(); X.args = (void *)nd_size(); X.defer_set = nd_i32(); X.is_returning = nd_i32(); o = X; val = (void *)nd_size(); size_t n = nd_size();
    raii_values_t *r = thrd_returning(&X, val, n);
    CHECK(r == R && nall == 1 && nreg == 1, "one descriptor, both registered"); CHECK(r->value.object == val && r->extended == val && r->size == n, "the block and its size"); CHECK(*thrd_returned() == r, "remembered for this thread"); CHECK(X.type == o.type && X.context == o.context && X.n_args == o.n_args && X.args == o.args && X.defer_set == o.defer_set && X.is_returning, "the container is unchanged otherwise"); REACH("returning");
#elif FN == 1
    raii_values_t v; struct result_data s; size_t b = nd_size(); ASSUME(b < sizeof(values_type)); v.value.buffer[b] = (char)nd_u8(); s.type = RAII_VALUE; s.is_ready = ready = nd_bool(); s.result = ready ? &v : NULL;
    values_type r = thrd_result(&s); CHECK(ready && r.buffer[b] == v.value.buffer[b], "the value of a ready slot"); REACH("ready");
#else
    B = (long)nd_size(); ASSUME(B >= 0); F.type = RAII_FUTURE; F.value = &P; done = nd_bool(); if (nd_bool()) { bool d = thrd_is_done(&F); CHECK(d == done, "tells whether it is done"); if (d) REACH("is done"); else REACH("not yet"); }
    thrd_wait(&F, pause_); CHECK(done && fin, "returns when done"); REACH("waited"); if (nyield > 1) REACH("after polling");
#endif
}
