/*@vc
prop C22 C25
src future.c
func thrd_async thrd_start future_create args_bind
stub promise_create
unwind 2
timeout 300
doc starting any task with any argument (null, foreign, a container bound to a scope or not): one thread is created, by then the future is complete and has the promise, the argument block holds the function, the argument and the promise and is complete, and a container not bound to any scope is bound to that of the promise, nothing else of it
\ changes; after that the argument block, the promise and the argument belong to the task and are not touched; a failure to create the thread throws future_error; the future returned is the one whose thread runs
assume promise_create as in c22_promise; malloc and calloc as in C03
@*/
#include "vc.h"
#include "raii.h"
#include "vc_atomic.h"
#include "vc_loops.h"
static memory_t PS, US; static promise *P; static struct args_s *X; static int other; static void *blk[2], *arg; static int nb, ncreate, nprom; static struct args_s X0; static thrd_t tid; static bool isargs;
static void *task(args_t a) { CHECK(0, "not run by the thread that starts it"); return NULL; }
static int thrd_raii_wrapper(void_t);
bool is_empty(void *p) { return p == NULL; }
raii_type type_of(void *s) { return ((var_t *)s)->type; }
bool is_type(void *s, raii_type t) { return type_of(s) == t; }
int atexit(void (*f)(void)) { return 0; }
promise *promise_create(void) { CHECK(nprom == 0 && ncreate == 0, "one promise"); nprom++; return P; }
void *try_malloc(size_t n) { CHECK(nb < 2 && ncreate == 0, "allocated before the thread runs"); blk[nb] = vc_new(n, 0); ASSUME(blk[nb] != NULL); return blk[nb++]; }
void *try_calloc(int c, size_t n) { CHECK(nb < 2 && ncreate == 0 && c == 1, "allocated before the thread runs"); blk[nb] = vc_new(n, 1); ASSUME(blk[nb] != NULL); return blk[nb++]; }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt) { extern const char EX_NAME(future_error)[]; CHECK(ex == EX_NAME(future_error) && ncreate == 1, "the thread could not be created"); REACH("no thread"); ASSUME(0); }
bool va_set(volatile void *f, int o) { return false; } bool va_load(volatile void *f, int o) { return false; } void va_clear(volatile void *f, int o) { } void va_lock(volatile void *m) { } void va_unlock(volatile void *m) { }
int thrd_create(thrd_t *t, thrd_start_t f, void *a)
{
    CHECK(ncreate == 0 && f == thrd_raii_wrapper, "one thread, running the wrapper"); ncreate++; future_arg *q = (future_arg *)a; CHECK(nb == 2 && (a == blk[0] || a == blk[1]), "with a block of its own");
    future F = (future)(a == blk[0] ? blk[1] : blk[0]); CHECK(t == &F->thread && F->type == RAII_FUTURE, "the thread of the future");
    CHECK(q->type == RAII_FUTURE_ARG && q->func == task && q->arg == arg && q->value == P, "function, argument and promise"); CHECK(P->type == RAII_PROMISE && P->scope == &PS && P->result == NULL, "the promise is as created");
    if (isargs) CHECK(X->context == (X0.context ? X0.context : &PS), "bound to the scope of the promise, unless it is bound"); if (X) CHECK(X->type == X0.type && X->defer_set == X0.defer_set && X->is_returning == X0.is_returning && X->n_args == X0.n_args && X->args == X0.args && X->args_size == X0.args_size && (isargs || X->context == X0.context), "nothing else of the argument changes");
    if (nd_bool()) return thrd_error;
    tid = (thrd_t)nd_size(); *t = tid; __CPROVER_deallocate(a); if (X) __CPROVER_deallocate(X); REACH("started"); return thrd_success;
}
#include "src_future.c"
void harness(void)
{
    P = (promise *)vc_new(sizeof(promise), 1); ASSUME(P != NULL); P->type = RAII_PROMISE; P->scope = &PS;
    if (nd_bool()) { X = (struct args_s *)vc_new(sizeof(struct args_s), 0); ASSUME(X != NULL); isargs = nd_bool(); X->type = nd_i32(); if (isargs) X->type = RAII_ARGS; else ASSUME(X->type != RAII_ARGS); X->context = nd_bool() ? NULL : &US; X->is_returning = nd_i32(); X->defer_set = nd_i32(); X0 = *X; }
    arg = X; future f = thrd_async(task, arg);
    CHECK(ncreate == 1 && nprom == 1, "started"); CHECK(f == (future)blk[0] || f == (future)blk[1], "the future"); CHECK(f->type == RAII_FUTURE && f->value == P && f->thread == tid, "whose thread runs, with its promise"); if (!X) REACH("no argument"); if (isargs) REACH("a container");
}
