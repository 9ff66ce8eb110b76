/*@vc
prop C23
src future.c
func thrd_sync
stub promise_get promise_close future_close
unwind 2
timeout 300
loop thrd_sync 0
inv (size_t)i <= n && v == &L && scope == &SS && L.type == RAII_SPAWN && (size_t)L.thread_count == n && L.futures == TF && L.results == TR && L.scope == &SS && (k >= n || (TF[k] == &FK && TR[k] == &DK && DK.type == RAII_VALUE && ((size_t)i > k ? KDONE : KFRESH)))
dec n - i
havoc i DK CK cget cfut cpro closing nal kcopy lastcopy copyb kval
begin step_begin((size_t)i);
step step_end((size_t)i);
doc synchronising a thread scope with any number of tasks, each not collected or collected by an earlier call, with any result (none, a value, data of any size): for every task (an arbitrary one, k, followed through) its own promise is waited for, its future is released once, after its promise was read, its error is thrown then (stops); afterwards its slot is ready and holds a
\ value of its own in the scope of the pool: the value the task returned, zero if none, or for data a copy of it of the same size, which is also the value; slots collected before are not touched; the scope of the thread, which holds what the tasks made, is released at the end, not before
assume promise_get, promise_close, future_close as in c22_promise and c22_get; calloc_full as in C03; the tables hold the tasks spawned (c23_spawn), distinct ones
@*/
#include "vc.h"
#include "raii.h"
#include "vc_atomic.h"
static memory_t SS; static struct future_pool L; static size_t n, k, b; static future *TF; static result_t *TR; static struct _future FK, FO; static struct result_data DK, DO, DK0; static promise PK, PO; static raii_values_t RK, RO, *CK, *CO; static bool hasK, hasO, dataK, readyK, readyO, refused, freed; static size_t szK; static char *extK; static char wb, wv; static size_t vb;
static int cget, cfut, cpro, nal; static bool closing, kcopy; static char *lastcopy, copyb, kval, onext; static bool cur_k;
#define KFRESH (DK.is_ready == readyK && DK.result == DK0.result)
/* collected: as it was, if collected before; else ready, with its own value */
#define KVAL(d) ((d).is_ready && (d).result != NULL && (d).result == CK && (!hasK ? CK->value.object == NULL && CK->size == 0 : dataK ? CK->extended == lastcopy && CK->value.object == (void *)lastcopy && lastcopy != NULL && copyb == wb : CK->value.object == RK.value.object))
#define KDONE (readyK ? KFRESH : (DK.is_ready && kcopy))
bool is_empty(void *p) { return p == NULL; }
raii_type type_of(void *s) { return ((var_t *)s)->type; }
bool is_type(void *s, raii_type t) { return type_of(s) == t; }
int atexit(void (*f)(void)) { return 0; }
#define F_ (cur_k ? &FK : &FO)
#define P_ (cur_k ? &PK : &PO)
raii_values_t *promise_get(promise *p) { CHECK(p == P_ && cget == 0 && cfut == 0, "waits for its own promise, first"); cget++; return cur_k ? (hasK ? &RK : NULL) : (hasO ? &RO : NULL); }
void future_close(future f) { CHECK(f == F_ && cget == 1 && cfut == 0, "its future is released once, when done"); cfut++; }
void promise_close(promise *p) { CHECK(p == P_ && cfut == 1 && cpro == 0, "its error is thrown once its future is released"); cpro++; if (cur_k) { CHECK(KVAL(DK), "by then its slot is ready, with its own value"); } if (nd_bool()) ASSUME(0); }
void *calloc_full(memory_t *m, int c, size_t s, func_t f)
{
    CHECK(m == &SS && f == RAII_FREE && cget == 1 && cfut == 0 && nal < 2, "in the scope of the pool, once the task is done"); size_t z = (size_t)c * s; void *p = vc_new(z, 1); ASSUME(p != NULL);
    if (nal == 0) { CHECK(z == sizeof(raii_values_t), "a value"); if (cur_k) CK = (raii_values_t *)p; else CO = (raii_values_t *)p; }
    else if (cur_k) { CHECK(dataK && z == szK, "a copy of the data, of its size"); lastcopy = (char *)p; }
    nal++; return p;
}
static char *obase; static size_t osz;
void *memcpy(void *d, const void *s, size_t z)
{
    CHECK(nal == 2 && z > 0, "copied into its own block"); if (cur_k) { CHECK(d == (void *)lastcopy && s == (const void *)extK && z == szK, "all the data of the task"); copyb = wb; } else { CHECK(z <= OBJSZ(d) && OFF(d) == 0 && s == (void *)obase && z == osz, "the data of that task"); } return d;
}
void raii_deferred_clean(void) { CHECK(!freed, "once"); if (k < n) CHECK(DK.is_ready && (readyK ? DK.result == DK0.result : kcopy), "every task is collected before what it made is released"); freed = true; }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt) { extern const char EX_NAME(logic_error)[]; CHECK(refused && ex == EX_NAME(logic_error), "no thread scope"); REACH("refused"); ASSUME(0); }
bool va_set(volatile void *f, int o) { return false; } bool va_load(volatile void *f, int o) { return false; } void va_clear(volatile void *f, int o) { } void va_lock(volatile void *m) { } void va_unlock(volatile void *m) { }
static bool wasready;
/* the arbitrary iteration: the tables hold the future and the slot of task i */
static void step_begin(size_t i)
{
    cget = cfut = cpro = nal = 0; if (i >= n) return;
    cur_k = i == k; if (!cur_k) { readyO = DO.is_ready = nd_bool(); DO.type = RAII_VALUE; DO.result = NULL; hasO = nd_bool(); RO.size = nd_size(); ASSUME(RO.size < ((size_t)1 << 40)); osz = RO.size; obase = (char *)nd_size(); RO.extended = obase; FO.value = &PO; TF[i] = &FO; TR[i] = &DO; }
}
static void step_end(size_t i)   /* i: after the step */
{
    bool was = cur_k ? readyK : readyO; CHECK(was ? cget == 0 && cfut == 0 && cpro == 0 && nal == 0 : cget == 1 && cfut == 1 && cpro == 1, "collected once, unless it was before"); if (!cur_k) CHECK(DO.is_ready, "ready");
    if (cur_k && !was) { CHECK(KVAL(DK), "its slot holds its own value"); kcopy = true; if (dataK && hasK) REACH("data"); if (!hasK) REACH("none"); } if (was) REACH("collected before");
}
#include "vc_loops.h"
#include "src_future.c"
void harness(void)
{
    n = nd_u32(); k = nd_size(); ASSUME(n < (1u << 30)); TF = (future *)vc_new(n * sizeof(TF[0]), 0); TR = (result_t *)vc_new(n * sizeof(TR[0]), 0); ASSUME(TF && TR);
    FK.type = RAII_FUTURE; FK.value = &PK; DK.type = RAII_VALUE; DK.is_ready = readyK = nd_bool(); DK.result = readyK ? &RO : NULL; DK0 = DK; hasK = nd_bool(); szK = nd_size(); ASSUME(szK < ((size_t)1 << 40)); dataK = hasK && szK > 0; extK = (char *)nd_size(); RK.size = szK; RK.extended = extK; RK.value.object = (void *)nd_size(); wb = (char)nd_u8();
    if (k < n) { TF[k] = &FK; TR[k] = &DK; } L.type = RAII_SPAWN; if (nd_bool()) { L.type = nd_i32(); ASSUME(L.type != RAII_SPAWN); refused = true; } L.thread_count = (int)n; L.futures = TF; L.results = TR; L.scope = &SS; L.cpu_present = nd_size();
    future_t r = thrd_sync(&L); CHECK(!refused && r == &L && freed, "the thread scope is returned, what the tasks made is released"); CHECK(L.type == RAII_SPAWN && (size_t)L.thread_count == n && L.futures == TF && L.results == TR && L.scope == &SS, "and is as before");
    if (k < n) { CHECK(readyK ? DK.result == DK0.result && DK.is_ready : DK.is_ready && kcopy, "every slot is ready"); REACH("synchronised"); }
}
