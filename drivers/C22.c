/* VCD_TSAN C22: futures over random tasks, under random schedules of starting, finishing and waiting */
#include "fut_prog.h"
int vcd_fork_each = 1;
static void get_it(future f, struct tk *t)
{
    volatile int thrown = 0, got = 0; char vb[sizeof(values_type)]; void *o;

    if (vcd_below(3) == 0) { thrd_wait(f, thrd_yield); VCD_CHECK(thrd_is_done(f), "waiting returned before the task is done"); }
    try { values_type v = thrd_get(f); memcpy(vb, &v, sizeof v); got = 1; }
    catch_any {
        thrown = 1; VCD_CHECK(throws(t), "task %d: an exception that is not its own: %s", t->id, err);
        if (t->kind == K_THROW) { VCD_CHECK(strcmp((char *)ex_err.ex, "out_of_range") == 0 && strcmp(err, "out_of_range") == 0, "task %d: its exception, got %s", t->id, err); }
        else VCD_CHECK(strcmp((char *)ex_err.ex, "panic") == 0 && ex_err.panic == t->msg, "task %d: its exception with its message, got %s", t->id, err);
    } end_trying;
    VCD_CHECK(thrown == throws(t) && got == !throws(t), "task %d: its exception is thrown to the one who waits", t->id);
    task_over(t); VCD_CHECK(vcd_block_size(f) == (size_t)-1, "the future is released");
    if (!got) return;
    memcpy(&o, vb, sizeof o);
    switch (t->kind) {
    case K_VALUE: case K_NESTED: case K_INTRY: VCD_CHECK((intptr_t)o == t->val, "task %d returned %ld, got %ld", t->id, (long)t->val, (long)o); break;
    case K_DATA: same_data(t, o); VCD_CHECK(vcd_in_block(o, (size_t)t->size), "the data is alive"); break;
    default: VCD_CHECK(o == NULL, "task %d returned nothing, got %p", t->id, o);
    }
}
void vcd_trial(uint64_t n)
{
    int k = 1 + (int)vcd_below(7), i, left = 0; future F[8]; int st[8] = { 0 };
    pr_free = vcd_below(2); raii_init(); mainscope = raii_local(); mainctx = ex_local(); long base = 0;
    if (vcd_below(4) == 0) { volatile int c = 0; struct _future z; memset(&z, 0, sizeof z); z.type = RAII_POOL; try { thrd_get(&z); } catch (logic_error) { c = 1; } end_trying; VCD_CHECK(c, "what is not a future is refused"); }
    vcd_note(pr_free ? "free: " : "gated: ");
    while (left < k) {
        i = (int)vcd_below((uint64_t)k); int act = (int)vcd_below(4);
        if (st[i] == 0) {
            struct tk *t; int j = i; /* tasks are numbered in the order of their start */
            t = mk_task(1); int at = t->id; mk_arg(t); F[at] = thrd_async(body_of(t), t->arg); VCD_CHECK(is_type(F[at], RAII_FUTURE), "a future");
            st[j] = 1; vcd_note("start%d ", at);
        } else if (nT) {
            struct tk *t = T[vcd_below((uint64_t)nT)]; if (t->ended) continue;
            if (act == 0 || act == 1) { if (!t->go) { vcd_note("go%d ", t->id); } t->go = 1; if (act == 1) { SPIN(thrd_is_done(F[t->id])); vcd_note("done%d ", t->id); } }
            else if (act == 2 && !pr_free && !t->go) VCD_CHECK(!thrd_is_done(F[t->id]), "done before the task has ended");
            else if (act == 3) { /* waits first, the task goes on later, or it is done */
                t->go = 1; vcd_note("get%d ", t->id); get_it(F[t->id], t); t->ended = 1; left++; }
        }
    }
    for (i = 0; i < nT; i++) if (T[i]->akind == A_FOREIGN) RAII_FREE(T[i]->arg); else if (T[i]->akind == A_IN) args_free(T[i]->arg);
    raii_destroy(); vcd_leaks("after the scope of the thread is released");
}
