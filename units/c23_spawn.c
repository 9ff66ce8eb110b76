/*@vc
prop C23 C22 C25
src future.c
func thrd_spawn future_create args_bind
stub promise_create
subst thrd_spawn ~([\w>.-]+) % ([\w>.-]+)~vc_rem((size_t)(\1), (size_t)(\2))~
unwind 2
timeout 300
doc spawning a task in any thread scope that holds any number of tasks (any number of processors), with any argument: its slot is the next one, both tables have room for it (they grow when full), the slots of all earlier tasks are kept as they are, future and promise as for C22 (complete before the thread runs, the argument block and argument belong to the task
\ afterwards); the result slot is fresh, not ready, in the scope of the pool, and is the one returned; without a thread scope, nothing is started and an exception thrown; likewise if the thread cannot be created, the tables then hold the earlier tasks only
assume promise_create as in c22_promise; realloc keeps the contents up to the smaller size; fewer than 2^30 tasks and 2^20 processors; a remainder is less than its divisor; the tables have room for the tasks held, and up to the next multiple of the number of processors (kept, see obligation)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_atomic.h"
#include "vc_loops.h"
static memory_t PS, US, LS, SS; static promise *P; static struct args_s *X; static void *blk[2], *arg; static int nb, ncreate, nprom, nre, nall; static struct args_s X0; static thrd_t tid; static bool isargs, nopool, failt;
static struct future_pool L; static future *T0, *T1; static result_t *R0, *R1; static struct result_data *D; static struct _future FK; static struct result_data DK; static size_t n, cpu, cap, k, newcap;
static void *task(args_t a) { CHECK(0, "not run by the thread that starts it"); return NULL; }
static int thrd_raii_wrapper(void_t);
static size_t r; static size_t vc_rem(size_t a, size_t b) { CHECK(a == n && b == cpu, "the tasks held, modulo the processors"); return r; }
bool is_empty(void *p) { return p == NULL; }
raii_type type_of(void *s) { return ((var_t *)s)->type; }
bool is_type(void *s, raii_type t) { return type_of(s) == t; }
static bool hasl;
memory_t *raii_local(void) { return hasl ? &LS : NULL; } memory_t *raii_init(void) { return &LS; }
bool is_raii_empty(void) { return !hasl; }
int atexit(void (*f)(void)) { return 0; }
promise *promise_create(void) { CHECK(nprom == 0 && ncreate == 0, "one promise"); nprom++; return P; }
void *try_malloc(size_t s) { CHECK(nb < 2 && ncreate == 0, "allocated before the thread runs"); blk[nb] = vc_new(s, 0); ASSUME(blk[nb] != NULL); return blk[nb++]; }
void *try_calloc(int c, size_t s) { CHECK(nb < 2 && ncreate == 0 && c == 1, "allocated before the thread runs"); blk[nb] = vc_new(s, 1); ASSUME(blk[nb] != NULL); return blk[nb++]; }
void *try_realloc(void *p, size_t s)
{
    CHECK(nre < 2 && ncreate == 0, "each table grows once"); CHECK(p == (void *)T0 || p == (void *)R0, "a table of the pool"); CHECK(s % sizeof(void *) == 0 && s / sizeof(void *) > n, "with room for one more"); nre++;
    void **q = (void **)vc_new(s, 0); ASSUME(q != NULL); if (k < n) q[k] = p == (void *)T0 ? (void *)&FK : (void *)&DK;
    if (p == (void *)T0 && T0 != NULL && nre == 1) T1 = (future *)q; else R1 = (result_t *)q;
    if (p) __CPROVER_deallocate(p); return q;
}
void *calloc_full(memory_t *m, int c, size_t s, func_t f) { CHECK(m == &SS && (size_t)c * s == sizeof(struct result_data) && f == RAII_FREE && nall == 0, "the slot, in the scope of the pool"); nall++; D = (struct result_data *)vc_new(sizeof(struct result_data), 1); ASSUME(D != NULL); return D; }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt)
{
    if (nopool) { CHECK(ncreate == 0 && nb == 0 && nprom == 0 && nre == 0, "no thread scope, nothing is started"); REACH("no scope"); }
    else { extern const char EX_NAME(future_error)[]; CHECK(ex == EX_NAME(future_error) && failt, "the thread could not be created"); CHECK((size_t)L.thread_count == n, "no slot is taken"); if (k < n) CHECK(L.futures[k] == &FK && L.results[k] == &DK, "earlier slots are kept"); REACH("no thread"); }
    ASSUME(0);
}
bool va_set(volatile void *f, int o) { return false; } bool va_load(volatile void *f, int o) { return false; } void va_clear(volatile void *f, int o) { } void va_lock(volatile void *m) { } void va_unlock(volatile void *m) { }
int thrd_create(thrd_t *t, thrd_start_t f, void *a)
{
    CHECK(ncreate == 0 && f == thrd_raii_wrapper, "one thread, running the wrapper"); ncreate++; future_arg *q = (future_arg *)a; CHECK(nb == 2 && (a == blk[0] || a == blk[1]), "with a block of its own");
    future F = (future)(a == blk[0] ? blk[1] : blk[0]); CHECK(t == &F->thread && F->type == RAII_FUTURE && F->value == P, "the thread of the future");
    CHECK(q->type == RAII_FUTURE_ARG && q->func == task && q->arg == arg && q->value == P, "function, argument and promise"); CHECK(P->type == RAII_PROMISE && P->scope == &PS && P->result == NULL, "the promise is as created");
    if (isargs) CHECK(X->context == (X0.context ? X0.context : &PS), "bound to the scope of the promise, unless it is bound"); if (X) CHECK(X->type == X0.type && X->n_args == X0.n_args && X->args == X0.args && (isargs || X->context == X0.context), "nothing else of the argument changes");
    if (nd_bool()) { failt = true; return thrd_error; }
    tid = (thrd_t)nd_size(); *t = tid; __CPROVER_deallocate(a); if (X) __CPROVER_deallocate(X); return thrd_success;
}
#include "src_future.c"
void harness(void)
{
    cpu = nd_size(); n = nd_u32(); k = nd_size(); ASSUME(cpu >= 1 && cpu < (1u << 20) && n < (1u << 30));
    L.type = RAII_SPAWN; L.thread_count = (int)n; L.cpu_present = cpu; L.scope = &SS; LS.arena = &L; hasl = true;
    r = nd_size(); ASSUME(r < cpu && (n > 0 || r == 0)); cap = nd_size(); ASSUME(cap < (1u << 31) && (r ? cap - n >= cpu - r && cap > n : cap >= n));
    if (n > 0) { T0 = (future *)vc_new(cap * sizeof(T0[0]), 0); R0 = (result_t *)vc_new(cap * sizeof(R0[0]), 0); ASSUME(T0 && R0); } L.futures = T0; L.results = R0; if (k < n) { T0[k] = &FK; R0[k] = &DK; } FK.type = RAII_FUTURE; DK.is_ready = nd_bool(); bool rk = DK.is_ready;
    if (nd_bool()) { nopool = true; int w_ = nd_i32(); if (w_ == 0) hasl = false; else if (w_ == 1) LS.arena = NULL; else { L.type = nd_i32(); ASSUME(L.type != RAII_SPAWN); } }
    P = (promise *)vc_new(sizeof(promise), 1); ASSUME(P != NULL); P->type = RAII_PROMISE; P->scope = &PS;
    if (nd_bool()) { X = (struct args_s *)vc_new(sizeof(struct args_s), 0); ASSUME(X != NULL); isargs = nd_bool(); X->type = nd_i32(); if (isargs) X->type = RAII_ARGS; else ASSUME(X->type != RAII_ARGS); X->context = nd_bool() ? NULL : &US; X0 = *X; }
    arg = X; result_t res = thrd_spawn(task, arg);
    CHECK(!nopool && !failt && ncreate == 1 && nprom == 1 && nall == 1, "started"); CHECK(res == D && D->type == RAII_VALUE && !D->is_ready && D->result == NULL, "a fresh slot, not ready, is returned");
    CHECK((size_t)L.thread_count == n + 1 && L.cpu_present == cpu && L.scope == &SS && L.type == RAII_SPAWN && LS.arena == &L, "one task more"); CHECK(L.results[n] == D, "in the next position"); future f = L.futures[n];
    CHECK((f == (future)blk[0] || f == (future)blk[1]) && f->type == RAII_FUTURE && f->value == P && f->thread == tid, "with its future, whose thread runs"); if (k < n) CHECK(L.futures[k] == &FK && L.results[k] == &DK && DK.is_ready == rk && FK.type == RAII_FUTURE, "earlier slots are kept");
    newcap = r ? cap : n + cpu; CHECK(OBJSZ(L.futures) >= newcap * sizeof(void *) && OBJSZ(L.results) >= newcap * sizeof(void *), "the tables have room until the next growth"); CHECK(nre == (r ? 0 : 2), "they grow when full"); if (n > 5 && r == 0) REACH("grown"); if (r > 2) REACH("in place"); if (n == 0) REACH("first");
}
