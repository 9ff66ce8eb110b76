/* VCD_TSAN C25: tasks that run and publish at the same time, while the thread that started them works in its own scope: every scope stays its thread's own */
#include "fut_prog.h"
int vcd_fork_each = 1;
static int seen[4096], nseen, bad; static int tag[4096];
static void log_it(void *p) { int k = *(int *)p; if (nseen < 4096) seen[nseen++] = k; }
static size_t last_index; static int ntag; static void *mem_[64]; static int msz[64], nmem, dfree;
static void own_exception(void);
static int gt = 5000;
static void own_guard(void)
{
    int b = nseen; void *o = raii_local()->arena;
    guard { raii_deferred(raii_local()->arena, log_it, &gt); } guarded;
    VCD_CHECK(raii_local()->arena == o && nseen == b + 1 && seen[b] == 5000, "a guard of the starting thread releases what is its own, and only that"); nseen = b;
}
static void work(memory_t *m)
{
    int k = 1 + (int)vcd_below(6), i; while (k--) {
        VCD_CHECK(raii_local() == mainscope && ex_local() == mainctx, "the thread scope and block of the starting thread stay its own");
        switch (vcd_below(5)) {
        case 0: case 1: if (ntag < 4000) { tag[ntag] = ntag; raii_deferred(m, log_it, &tag[ntag]); ntag++; } break;
        case 2: if (nmem < 64) { int z = 1 + (int)vcd_below(300); unsigned char *d = malloc_by(m, (size_t)z); memset(d, 0x40 + nmem, (size_t)z); mem_[nmem] = d; msz[nmem++] = z; } break;
        case 3: own_exception(); break;
        default: own_guard();
        }
    }
    for (i = 0; i < nmem; i++) { int j; for (j = 0; j < msz[i]; j++) VCD_CHECK(((unsigned char *)mem_[i])[j] == 0x40 + i, "memory of the starting thread is its own"); }
}
static void *relay(args_t a)
{   /* a task that starts tasks of its own and passes their sum on */
    memory_t *m = raii_local(); intptr_t s = 0; int i, k = get_args(a, 0).integer; future f[4];
    for (i = 0; i < k; i++) { f[i] = thrd_async(task_body, T[get_args(a, 1).integer + i]->arg); }
    for (i = 0; i < k; i++) { values_type v = thrd_get(f[i]); s += (intptr_t)v.integer; VCD_CHECK(raii_local() == m, "waiting does not change the thread scope"); task_over(T[get_args(a, 1).integer + i]); }
    return thrd_value(s);
}
static void get_one(future f, struct tk *t)
{
    volatile int thrown = 0; char vb[sizeof(values_type)] = { 0 }; void *o;
    try { values_type v = thrd_get(f); memcpy(vb, &v, sizeof v); } catch_any { thrown = 1; } end_trying;
    memcpy(&o, vb, sizeof o); VCD_CHECK(thrown == throws(t), "task %d: its own exception only", t->id); task_over(t); if (thrown) return;
    if (t->kind == K_DATA) same_data(t, o); else VCD_CHECK((intptr_t)o == (t->kind == K_NONE || t->kind == K_RECOVER ? 0 : t->val), "task %d: its own result", t->id);
}
static void own_exception(void) { volatile int c = 0; try { throw(range_error); } catch (range_error) { c = 1; } end_trying; VCD_CHECK(c, "an exception of the starting thread stays its own"); }
void vcd_trial(uint64_t n)
{
    int k = 2 + (int)vcd_below(9), i, j, rel = vcd_below(3) == 0; future F[16], G[2] = { 0 }; intptr_t sum[2] = { 0 }; pr_free = 1; raii_init(); mainscope = raii_local(); mainctx = ex_local();
    vcd_note("free%s: ", rel ? " relay" : "");
    memory_t *m = mainscope; raii_init();
    if (rel) for (j = 0; j < 2; j++) { int base = nT; for (i = 0; i < 3; i++) { struct tk *t = mk_task(1); t->kind = K_VALUE; if (t->akind == A_NULL) nplan--; t->akind = vcd_below(2) ? A_GET : A_IN; mk_arg(t); sum[j] += t->val; } G[j] = thrd_async(relay, args_for(vcd_str("ii", 2), 3, base)); }
    int first = nT;
    for (i = 0; i < k; i++) { struct tk *t = mk_task(1); if (t->akind == A_BOUND) t->akind = A_GET; mk_arg(t); F[i] = thrd_async(body_of(t), t->arg); if (vcd_below(2)) work(m); }
    work(m);
    for (i = 0; i < k; i++) { get_one(F[i], T[first + i]); if (vcd_below(3) == 0) work(m); }
    if (rel) for (j = 0; j < 2; j++) { values_type v = thrd_get(G[j]); VCD_CHECK((intptr_t)v.integer == (int)sum[j], "the sum of the tasks of a task"); }
    VCD_CHECK(nseen == 0, "nothing deferred by the starting thread runs before its scope ends");
    for (i = 0; i < nT; i++) if (T[i]->akind == A_FOREIGN) RAII_FREE(T[i]->arg); else if (T[i]->akind == A_IN) args_free(T[i]->arg);
    raii_destroy(); VCD_CHECK(nseen == ntag, "%d of %d deferred functions of the starting thread ran", nseen, ntag); for (i = 0; i < nseen; i++) VCD_CHECK(seen[i] == ntag - 1 - i, "each once, in reverse order");
    vcd_leaks("after the scope of the thread is released");
}
