/* Tasks for futures and thread scopes: what each one does is chosen at random, with gates that fix the schedule. */
#include "vcd.h"
#include "raii.h"
#include <unistd.h>
enum { K_NONE, K_VALUE, K_DATA, K_THROW, K_PANIC, K_RECOVER, K_NESTED, K_INTRY, K_DTHROW, KINDS };   /* what the task does in the end */
enum { A_NULL, A_FOREIGN, A_GET, A_IN, A_INFREE, A_BOUND, AKINDS };                          /* what its argument is, how it is used */
struct tk { int kind, akind, id, size, ndefer; void *arg; volatile int start, go, started, runs, ended, inrun; int defer_ran; intptr_t val; memory_t *scope; ex_context_t *ctx; const char *msg; int foreign; };
#define MAXT 48
static struct tk *T[MAXT]; static int nT; static memory_t *mainscope; static ex_context_t *mainctx;
static const char *kname[] = { "none", "value", "data", "throw", "panic", "recover", "nested", "in-try", "deferred-throw" }, *aname[] = { "null", "foreign", "get_args", "args_in", "args_free", "bound" };
static char msgs[4][24] = { "first message....", "second message...", "a third one......", "4................" };
#define SPIN(c) do { int s_ = 0; while (!(c)) { if (++s_ > 200) usleep(50); else thrd_yield(); } } while (0)
static volatile int runlk; static void out_of(struct tk *t) { while (__sync_lock_test_and_set(&runlk, 1)); t->inrun = 0; __sync_lock_release(&runlk); }
static int pr_free; /* gates off: free running */
static void df(void *p) { struct tk *t = *(struct tk **)p; t->defer_ran++; }
static void dfr(void *p) { struct tk *t = *(struct tk **)p; t->defer_ran++; if (!raii_caught("out_of_range")) t->defer_ran += 100; }
static void dth(void *p) { struct tk *t = *(struct tk **)p; t->defer_ran++; raii_panic(t->msg); }
static void *task_run(struct tk *t, args_t a);
static void *task_body(args_t a)
{
    int i; for (i = nT - 1; i >= 0; i--) if (!T[i]->runs && T[i]->akind != A_NULL && T[i]->arg && T[i]->arg == (void *)a) return task_run(T[i], a); /* a released container may be where a new one is */
    for (i = nT - 1; i >= 0; i--) if (!T[i]->runs && T[i]->foreign && is_type(a, RAII_ARGS) && args_in(a, 1).object == (void *)T[i]) return task_run(T[i], a);
    for (i = nT - 1; i >= 0; i--) if (T[i]->akind != A_NULL && T[i]->arg && T[i]->arg == (void *)a) return task_run(T[i], a);
    for (i = nT - 1; i >= 0; i--) if (T[i]->foreign && is_type(a, RAII_ARGS) && args_in(a, 1).object == (void *)T[i]) return task_run(T[i], a);
    vcd_fail("the task is called with an argument that is not its own"); return NULL;
}
#define NF(k) static struct tk *nt##k; static void *task_null##k(args_t a) { VCD_CHECK(a == NULL, "the argument of task %d", nt##k->id); return task_run(nt##k, a); }
NF(0) NF(1) NF(2) NF(3)
static int nnull, nplan;
static thrd_func_t body_of(struct tk *t)
{
    if (t->akind != A_NULL) return task_body;
    switch (nnull++) { case 0: nt0 = t; return task_null0; case 1: nt1 = t; return task_null1; case 2: nt2 = t; return task_null2; default: nt3 = t; return task_null3; }
}
static void *task_run(struct tk *t, args_t a)
{
    void *r = NULL; unsigned char *d; int i; struct tk *self[1] = { t };
    if (__sync_add_and_fetch(&t->runs, 1) != 1) vcd_fail("task %d runs more than once", t->id);
    t->scope = raii_local(); t->ctx = ex_local(); t->started = 1; if (!pr_free) SPIN(t->go);
    VCD_CHECK(t->scope != NULL && t->scope != mainscope && t->ctx != mainctx, "task %d uses the thread scope or block of the thread that started it", t->id);
    while (__sync_lock_test_and_set(&runlk, 1)); /* distinct from those of every task that is still in its body */
    for (i = 0; i < nT; i++) if (i != t->id && T[i]->inrun) VCD_CHECK(T[i]->scope != t->scope && T[i]->ctx != t->ctx, "tasks %d and %d have the same thread scope or block", t->id, i);
    t->inrun = 1; __sync_lock_release(&runlk);
    if (t->akind == A_GET || t->akind == A_BOUND) { VCD_CHECK(get_args(a, 0).integer == t->id && get_args(a, 1).object == (void *)t, "task %d: its arguments", t->id); }
    if (t->akind == A_IN || t->akind == A_INFREE) VCD_CHECK(args_in(a, 0).integer == t->id && args_in(a, 1).object == (void *)t, "task %d: its arguments", t->id);
    for (i = 0; i < t->ndefer; i++) raii_deferred(raii_local()->arena, df, memcpy(malloc_default(sizeof self), self, sizeof self));
    switch (t->kind) {
    case K_NONE: break;
    case K_VALUE: r = thrd_value(t->val); break;
    case K_DATA: d = RAII_MALLOC((size_t)t->size); for (i = 0; i < t->size; i++) d[i] = (unsigned char)(t->id * 31 + i * 7); r = thrd_returning(a, d, (size_t)t->size); break;
    case K_THROW: if (t->akind == A_INFREE) args_free(a); out_of(t); throw(out_of_range); break;
    case K_PANIC: if (t->akind == A_INFREE) args_free(a); out_of(t); raii_panic(t->msg); break;
    case K_RECOVER: raii_recover_by(raii_local()->arena, dfr, memcpy(malloc_default(sizeof self), self, sizeof self)); if (t->akind == A_INFREE) args_free(a); out_of(t); throw(out_of_range); break;
    /* owns no memory, so its deferred functions run when the section ends: one recovers, then an older one throws */
    case K_DTHROW: raii_deferred(raii_local()->arena, dth, &T[t->id]); raii_recover_by(raii_local()->arena, dfr, &T[t->id]); if (t->akind == A_INFREE) args_free(a); out_of(t); throw(out_of_range); break;
    case K_NESTED: guard { raii_deferred(raii_local()->arena, df, memcpy(malloc_default(sizeof self), self, sizeof self)); } guarded; r = thrd_value(t->val); break;
    case K_INTRY: { volatile int c = 0; try { throw(domain_error); } catch (domain_error) { c = 1; } end_trying; VCD_CHECK(c == 1, "task %d handles its own exception", t->id); r = thrd_value(t->val); break; }
    }
    if (t->akind == A_INFREE) args_free(a);
    VCD_CHECK(raii_local() == t->scope && ex_local() == t->ctx, "task %d: its thread scope stays the same", t->id); out_of(t); return r;
}
static void *mk_arg(struct tk *t)
{
    switch (t->akind) {
    case A_NULL: return t->arg = NULL;
    case A_FOREIGN: { long *p = RAII_CALLOC(1, 32); p[0] = 5 + t->id; return t->arg = p; }
    case A_BOUND: return t->arg = raii_args_for(raii_init(), vcd_str("ip", 2), t->id, t);
    default: return t->arg = args_for(vcd_str("ip", 2), t->id, t);
    }
}
static struct tk *mk_task(int nodata_ok)
{
    struct tk *t = calloc(1, sizeof *t); t->id = nT; t->kind = (int)vcd_below(KINDS); t->akind = (int)vcd_below(AKINDS); t->ndefer = (int)vcd_below(3); t->val = 1 + (intptr_t)vcd_below(1000000); t->size = 1 + (int)vcd_below(600); t->msg = msgs[vcd_below(4)];
    if (t->akind == A_BOUND || (t->akind == A_NULL && nplan >= 4)) t->akind = A_GET; if (t->akind == A_NULL) nplan++;
    if (t->kind == K_DATA && (t->akind == A_NULL || t->akind == A_FOREIGN)) t->akind = A_GET;
    if (t->kind == K_DTHROW) t->ndefer = 0;
    T[nT] = t; __sync_synchronize(); nT++; vcd_note("%d:%s(%s,%d) ", t->id, kname[t->kind], aname[t->akind], t->ndefer); return t;
}
static int throws(struct tk *t) { return t->kind == K_THROW || t->kind == K_DTHROW || t->kind == K_PANIC; }
static void task_over(struct tk *t)
{
    VCD_CHECK(t->runs == 1, "task %d ran %d times", t->id, t->runs);
    VCD_CHECK(t->defer_ran == t->ndefer + (t->kind == K_RECOVER || t->kind == K_NESTED) + 2 * (t->kind == K_DTHROW), "task %d: %d of %d deferred functions ran (+100: not recovered)", t->id, t->defer_ran, t->ndefer);
}
static void same_data(struct tk *t, void *q) { int i; unsigned char p[4096]; memcpy(p, q, (size_t)t->size); /* seen by the thread sanitizer */ for (i = 0; i < t->size; i++) VCD_CHECK(((unsigned char *)p)[i] == (unsigned char)(t->id * 31 + i * 7), "task %d: the data it returned", t->id); }
