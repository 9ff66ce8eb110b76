/* VCD_TSAN C23: thread scopes over random tasks: any number, spawned in rounds, any kinds of result */
#include "fut_prog.h"
int vcd_fork_each = 1;
static result_t R[MAXT]; static int visited[MAXT], nvis, lastv; static char tokens[MAXT + 2];
static int own_free;
static void *cb(void *res, size_t id, values_type v)
{
    VCD_CHECK(id < (size_t)nT && (int)id > lastv, "visited in order, at its position: %zu after %d", id, lastv); VCD_CHECK(res == (void *)&tokens[nvis], "the callback gets what it returned before"); lastv = (int)id; visited[id]++; nvis++;
    struct tk *t = T[id]; void *o = v.object;
    switch (t->kind) {
    case K_VALUE: case K_NESTED: case K_INTRY: VCD_CHECK((intptr_t)o == t->val, "slot %zu holds the value of its task", id); break;
    case K_DATA: same_data(t, o); VCD_CHECK(vcd_block_size(o) == (size_t)t->size, "a copy of the data of its size"); break;
    default: VCD_CHECK(o == NULL, "slot %zu: its task returned nothing", id);
    }
    return &tokens[nvis];
}
static void not_ready(int i)
{ volatile int c = 0; try { thrd_result(R[i]); } catch (logic_error) { c = 1; } end_trying; VCD_CHECK(c, "a result that is not ready is refused"); }
void vcd_trial(uint64_t n)
{
    int rounds = 1 + (int)vcd_below(3), r, i, first = 0; pr_free = vcd_below(3) != 0; int failing = vcd_below(3) == 0;
    raii_init(); mainscope = raii_local(); mainctx = ex_local();
    if (vcd_below(6) == 0) { volatile int c = 0; try { thrd_spawn(task_body, NULL); } catch_any { c = 1; } end_trying; VCD_CHECK(mainscope->arena != NULL || c, "no thread scope, an exception"); }
    future_t p = thrd_scope(); if (vcd_below(3)) p->cpu_present = 1 + vcd_below(5);
    VCD_CHECK(is_type(p, RAII_SPAWN), "a thread scope"); vcd_note("cpus %d%s: ", (int)p->cpu_present, pr_free ? " free" : "");
    for (r = 0; r < rounds; r++) {
        int k = (int)vcd_below(r ? 8 : 14), j;
        for (j = 0; j < k; j++) {
            struct tk *t = mk_task(1); i = t->id; if (!failing && throws(t)) { t->kind = K_VALUE; }
            if (t->akind == A_NULL) t->akind = A_GET, nplan--;
            if (t->akind == A_GET && vcd_below(2)) { t->akind = A_BOUND; t->arg = NULL; }
            if (t->akind == A_BOUND) { /* bound by thrd_spawn_ex, not to the scope of the thread that spawns */
                t->akind = A_GET; t->arg = NULL; t->foreign = 1; T[i] = t; R[i] = thrd_spawn_ex(task_body, vcd_str("ip", 2), t->id, t);
            } else { mk_arg(t); R[i] = thrd_spawn(body_of(t), t->arg); }
            VCD_CHECK(is_type(R[i], RAII_VALUE) && p->thread_count == i + 1 && p->results[i] == R[i] && is_type(p->futures[i], RAII_FUTURE), "task %d has the next slot", i);
            int q; for (q = 0; q < i; q++) VCD_CHECK(p->results[q] == R[q] && R[q]->type == RAII_VALUE, "slot %d is kept when task %d is spawned", q, i);
            if (!pr_free && !vcd_below(4)) T[vcd_below((uint64_t)nT)]->go = 1;
        }
        vcd_note("| ");
        if (k && !pr_free && first < nT && !T[nT - 1]->go) { VCD_CHECK(!thrd_is_finish(p), "not finished while a task runs"); not_ready(nT - 1); }
        for (i = 0; i < nT; i++) T[i]->go = 1;
        if (vcd_below(3) == 0) { vcd_note("until finished "); SPIN(thrd_is_finish(p)); for (i = first; i < nT; i++) VCD_CHECK(thrd_is_done(p->futures[i]), "finished before task %d has published", i); }
        volatile int again = 1, nth = 0;
        while (again) { again = 0; try { VCD_CHECK(thrd_sync(p) == p, "the thread scope is returned"); } catch_any { again = 1; nth++; } end_trying; }
        int want = 0; for (i = first; i < nT; i++) want += throws(T[i]); VCD_CHECK(nth == want, "%d of %d exceptions of the tasks are thrown", nth, want); first = nT;
        VCD_CHECK(thrd_is_finish(p), "everything is finished");
        for (i = 0; i < nT; i++) { task_over(T[i]); VCD_CHECK(R[i]->is_ready && p->results[i] == R[i], "slot %d is ready", i); if (T[i]->kind == K_VALUE) VCD_CHECK((intptr_t)thrd_result(R[i]).object == T[i]->val, "the result of task %d", i); }
        if (vcd_below(3) == 0 && nT) { int z = (int)vcd_below((uint64_t)nT); R[z]->is_ready = false; lastv = -1; nvis = 0; memset(visited, 0, sizeof visited); thrd_then(cb, p, &tokens[0]); for (i = 0; i < nT; i++) VCD_CHECK(visited[i] == (i != z), "slot %d visited %d times, one is not ready", i, visited[i]); R[z]->is_ready = true; }
        lastv = -1; nvis = 0; memset(visited, 0, sizeof visited); thrd_then(cb, p, &tokens[0]); for (i = 0; i < nT; i++) VCD_CHECK(visited[i] == 1, "slot %d is visited %d times", i, visited[i]);
    }
    thrd_destroy(p); raii_local()->arena = NULL;
    for (i = 0; i < nT; i++) if (T[i]->akind == A_FOREIGN) RAII_FREE(T[i]->arg); else if (T[i]->akind == A_IN) args_free(T[i]->arg);
    raii_destroy(); vcd_leaks("after the thread scope and the scope of the thread are released");
}
