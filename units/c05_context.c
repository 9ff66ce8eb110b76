/*@vc
prop C05
src except.c
func ex_init ex_local ex_update
unwind 2
timeout 300
doc the active block: without one, ex_init makes the outermost context of the thread active, with no exception recorded; with one it returns it unchanged; ex_update makes exactly the given block the active one; ex_local returns it
assume signal masks set around the initialisation have no effect on the contexts
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
#include "src_except.c"
bool is_empty(void *p) { return p == NULL; }  /* c24_types */
int atexit(void (*f)(void)) { return 0; }
int sigfillset(sigset_t *s) { return 0; }
int pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { return 0; }
void harness(void)
{
    ex_context_t A, B; A.ex = (char *)nd_size(); A.state = nd_i32(); A.next = &B; A.panic = (char *)nd_size(); A.type = nd_i32(); A.stack = (void *)nd_size(); A.is_raii = nd_bool(); A.is_guarded = nd_bool(); A.unstack = nd_i32(); A.caught = nd_i32(); A.data = (void *)nd_size();
    ex_context_t o = A;
    CHECK(ex_local() == NULL, "a thread starts without an active block");
    ex_context_t *top = ex_init();
    CHECK(top && ex_local() == top && top == &thrd_except_buffer, "the outermost context becomes the active one");
    CHECK(top->ex == NULL && top->panic == NULL && top->type == ex_context_st && !top->is_guarded && !top->is_raii && top->caught == -1 && top->stack == NULL && top->unstack == 0 && top->next == NULL, "with nothing recorded and nothing protected");
    CHECK(ex_init() == top, "there is one");
    ex_update(&A); CHECK(ex_local() == &A && ex_init() == &A, "the given block is the active one");
    CHECK(A.ex == o.ex && A.state == o.state && A.next == o.next && A.panic == o.panic && A.type == o.type && A.stack == o.stack && A.is_raii == o.is_raii && A.is_guarded == o.is_guarded && A.unstack == o.unstack && A.caught == o.caught && A.data == o.data, "unchanged");
    ex_update(A.next); CHECK(ex_local() == &B && ex_init() == &B, "the enclosing block is the active one again");
    ex_update(top); CHECK(ex_init() == top, "the outermost one");
    REACH("end");
}
