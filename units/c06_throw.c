/*@vc
prop C06 C04 C08
src except.c
func ex_throw
stub ex_unwind_stack ex_terminate ex_init
unwind 2
timeout 300
doc a throw, with any context, nesting and details: throwing while the active block unwinds terminates at once; else name, message, file, line and function are recorded in the active block, its state gets the thrown bit, before anything is
\ released; the release hook is told about it - the section's only when thrown to the section itself, else the thread scope's when the context owns it - and the block unwound exactly once; then control resumes exactly that block, once, with its state (thrown, unless a deferred function recovered), or the program is terminated when there is no block; other blocks are unchanged
assume ex_unwind_stack as proved in c04_unwind, a deferred function it runs may mark the block handled (c05_caught); siglongjmp resumes the sigsetjmp of the buffer; ex_terminate does not return (c06_terminate); signal masks have no effect on the contexts
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
#include "src_except.c"
bool is_empty(void *p) { return p == NULL; }
int sigfillset(sigset_t *s) { return 0; }
int backtrace(void **b, int n) { return 0; }
static int masked;
int pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { if (o) masked++; else { CHECK(masked == 1, "restored after"); masked--; } return 0; }
static ex_context_t C, Outer, *A, was; static int nhook, nscope, nunw, njmp; static const char *x, *f, *fn, *m; static int l; static bool isr, isguard, hook, unst; static int st0;
static void recorded(void)
{ CHECK(A->ex == x && A->panic == m && A->file == f && A->line == l && A->function == fn, "name, message, file, line and function are recorded"); CHECK((A->state & ex_throw_st) && A->state == (st0 | ex_throw_st), "the block is in thrown state"); CHECK(!unst, "not while unwinding"); CHECK(thrd_except_tls == A, "in the active block"); }
ex_context_t *ex_init(void) { if (!thrd_except_tls) { thrd_except_tls = A = &thrd_except_buffer; was = *A; } return thrd_except_tls; }   /* c05_context */
static void the_hook(ex_context_t *c, const char *e, const char *p) { recorded(); CHECK(c == A && e == x && p == m && !nunw && !nhook && !nscope, "the hook is told once, before unwinding"); CHECK(hook && isguard, "only when thrown to the section itself"); nhook++; A->is_unwind = nd_bool(); A->data = (void *)nd_size(); A->prev = (void *)nd_size(); }
void raii_unwind_set(ex_context_t *c, const char *e, const char *p) { recorded(); CHECK(c == A && e == x && p == m && !nunw && !nhook && !nscope, "the thread scope is told once, before unwinding"); CHECK(isr && !(hook && isguard), "only when it belongs to this context"); nscope++; A->is_unwind = nd_bool(); A->data = (void *)nd_size(); A->prev = (void *)nd_size(); }
static int st1;
static void ex_unwind_stack(ex_context_t *c)
{
    recorded(); CHECK(c == A && nunw == 0, "the active block is unwound, once"); nunw++;
    CHECK(nhook == (hook && isguard) && nscope == (isr && !(hook && isguard)), "the hooks have been told");
    CHECK(nhook || nscope || !c->is_unwind, "otherwise no memory of a scope is released");
    A->stack = NULL; A->unstack = 0; if (nd_bool()) A->state = ex_catch_st; st1 = A->state;
}
static void end(void) { CHECK(Outer.ex == (char *)1 && Outer.state == 5 && Outer.stack == (void *)2, "other blocks are unchanged"); CHECK(masked == 0, "signals as before"); }
void ex_terminate(void)
{
    if (unst) { CHECK(nunw == 0 && nhook == 0 && nscope == 0 && A->ex == was.ex && A->state == was.state, "at once"); REACH("throw while unwinding"); }
    else { CHECK(A == &thrd_except_buffer && nunw == 1, "terminates exactly when there is no block, after unwinding"); CHECK(A->ex == x && A->panic == m, "the exception is recorded"); REACH("no block"); }
    end(); ASSUME(0);
}
void siglongjmp(struct __jmp_buf_tag *b, int v)
{
    CHECK(A == &C && b == A->buf, "control resumes the active block"); CHECK(nunw == 1 && njmp == 0, "once, after unwinding"); njmp++;
    CHECK(v == st1 && A->state == st1 && v != 0, "with its state: thrown, unless recovered"); CHECK(A->ex == x && A->panic == m && A->file == f && A->line == l && A->function == fn, "the details are recorded");
    CHECK(thrd_except_tls == A, "still active"); end(); REACH("resumed"); if (nhook) REACH("hook"); if (nscope) REACH("scope"); ASSUME(0);
}
void harness(void)
{
    x = (char *)nd_size(); f = (char *)nd_size(); fn = (char *)nd_size(); m = (char *)nd_size(); l = nd_i32();
    Outer.ex = (char *)1; Outer.state = 5; Outer.stack = (void *)2;
    isr = nd_bool(); isguard = nd_bool(); hook = nd_bool(); exception_setup_func = hook ? the_hook : NULL;
    int where = nd_i32(); A = where == 0 ? &C : &thrd_except_buffer; thrd_except_tls = where == 2 ? NULL : A;
    st0 = nd_i32(); ASSUME(st0 >= 0 && st0 <= 3); if (where == 2) { st0 = 0; isr = isguard = false; }
    A->state = st0; A->is_raii = isr; A->is_guarded = isguard; A->next = &Outer; A->unstack = where == 2 ? 0 : nd_bool(); unst = A->unstack; A->ex = (char *)nd_size(); A->panic = (char *)nd_size(); A->is_unwind = nd_bool(); A->caught = nd_i32(); A->type = ex_context_st; was = *A;
    ex_throw(x, f, l, fn, m, (void *)nd_size());
    CHECK(0, "a throw does not return");
}
