/*@vc
prop C23
src future.c
func thrd_then thrd_is_finish
cases FN 0 1
unwind 2
timeout 300
loop thrd_then 0
inv (size_t)max == n && (size_t)i <= n && (size_t)last <= (size_t)i && iter == &L && callback == cb && result == token && (size_t)L.thread_count == n && L.results == TR && (k >= n || (TR[k] == &DK && DK.is_ready == rk && DK.result == &VK)) && ((size_t)i > k ? nk == rk : nk == 0)
dec n - i
havoc i last token result nk
begin then_begin((size_t)i);
step then_step((size_t)i);
loop thrd_is_finish 0
inv i <= n && f == &L && (size_t)L.thread_count == n && L.futures == TF && L.results == TR && (k >= n || (TF[k] == (rk ? NULL : &FK) && TR[k] == &DK && DK.is_ready == rk)) && (i > k ? rk || saw : !saw || rk) && (!saw || pdone)
dec n - i
havoc i saw pdone other
begin fin_begin(i);
doc iterating the results of any thread scope: the callback is called for exactly the ready slots (an arbitrary one, k, followed through), in order, each once, with its position, the value of its own result (all 256 bytes), and what the callback returned before (first: the argument); asking whether everything is finished: true exactly if every task
\ that is not collected is done (at the time it was polled), the futures of collected tasks are not touched
assume the tables hold the tasks spawned (c23_spawn)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_atomic.h"
static struct future_pool L; static size_t n, k, b; static future *TF; static result_t *TR; static struct _future FK, FO; static struct result_data DK, DO; static promise PK, PO; static raii_values_t VK, VO; static bool rk, saw, pdone, ro, cur_k, other; static int last, nk, expect; static void *token; static char w;
bool is_empty(void *p) { return p == NULL; }
int atexit(void (*f)(void)) { return 0; }
bool va_load(volatile void *f, int order)
{
    CHECK(FN == 1, "polled"); if (f == (volatile void *)&PK.done) { CHECK(cur_k && !rk, "the future of a collected task is not touched"); if (!pdone && nd_bool()) pdone = true; saw = pdone; return pdone; }
    CHECK(f == (volatile void *)&PO.done && !cur_k && !ro, "the flag of the task"); bool d = nd_bool(); if (!d) other = true; return d;
}
bool va_set(volatile void *f, int o) { CHECK(0, "not set here"); return false; } void va_clear(volatile void *f, int o) { CHECK(0, "not cleared here"); } void va_lock(volatile void *m) { } void va_unlock(volatile void *m) { }
static void *cb(void *res, size_t id, values_type v)
{
    CHECK(res == token, "what the callback returned before"); CHECK(id < n && (int)id == expect && id >= (size_t)last, "in order, with its position"); last = (int)id + 1; CHECK(cur_k ? rk : ro, "a ready slot");
    if (cur_k) { CHECK(v.buffer[b] == w, "its own value"); CHECK(nk == 0, "once"); nk++; REACH("called"); } token = (void *)nd_size(); return token;
}
static void then_begin(size_t i)
{ expect = (int)i; if (i >= n) return; cur_k = i == k; if (!cur_k) { ro = DO.is_ready = nd_bool(); DO.result = ro ? &VO : NULL; TR[i] = &DO; } }
static void then_step(size_t i) { if (!cur_k) CHECK(last == expect + 1 || !ro, "a ready slot is visited"); }
static void fin_begin(size_t i)
{ if (i >= n) return; cur_k = i == k; if (!cur_k) { ro = DO.is_ready = nd_bool(); FO.value = &PO; TR[i] = &DO; TF[i] = ro ? NULL : &FO; } }
#include "vc_loops.h"
#include "src_future.c"
void harness(void)
{
    n = nd_u32(); k = nd_size(); ASSUME(n < (1u << 30)); TF = (future *)vc_new(n * sizeof(TF[0]), 0); TR = (result_t *)vc_new(n * sizeof(TR[0]), 0); ASSUME(TF && TR);
    b = nd_size(); ASSUME(b < sizeof(values_type)); VK.value.buffer[b] = w = (char)nd_u8(); rk = DK.is_ready = nd_bool(); DK.result = &VK; FK.value = &PK; if (k < n) { TF[k] = FN == 1 && rk ? NULL : &FK; TR[k] = &DK; }
    L.type = RAII_SPAWN; L.thread_count = (int)n; L.futures = TF; L.results = TR;
#if FN == 0
    token = (void *)nd_size(); thrd_then(cb, &L, token); if (k < n) { CHECK(nk == rk, "every ready slot, exactly once"); REACH("iterated"); if (!rk) REACH("not ready"); }
#else
    pdone = nd_bool(); bool r = thrd_is_finish(&L); if (r) { if (k < n) CHECK(rk || saw, "true only if every task that is not collected is done"); if (k < n && !rk) REACH("done"); REACH("finished"); } else { CHECK(other || (k < n && !rk && !saw), "false only if one is not done"); REACH("not finished"); }
#endif
}
