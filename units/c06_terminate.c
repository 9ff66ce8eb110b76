/*@vc
prop C06
src except.c
func ex_terminate ex_uncaught_exception ex_local ex_print
stub ex_init
unwind 2
timeout 300
doc termination from any state: the thread scope, if there is one, is released once, first, whichever context is active, the interrupt callback is called exactly when an interrupt arrived and one is set, the termination callback once over all (also when a callback terminates again), and the process ends with a failure status, without running exit handlers when a signal arrived
assume exit and _Exit end the process with the given status; stdio only prints
@*/
#include "vc.h"
#include "raii.h"
#include <stdio.h>
#include <unistd.h>
#include "vc_loops.h"
#include "src_except.c"
bool is_empty(void *p) { return p == NULL; }
static ex_context_t C; static int ndes, nc, nt, nprint, again; static memory_t TS; static bool scope, gs, gc, ct, hc, ht;
ex_context_t *ex_init(void) { return thrd_except_tls; }
void backtrace_symbols_fd(void *const *b, int n, int fd) { }
int fflush(FILE *f) { return 0; }
int fprintf(FILE *f, const char *s, ...) { nprint++; return 0; }
memory_t *raii_local(void) { return scope ? &TS : NULL; }
void raii_destroy(void) { if (!scope) return; CHECK(ndes == 0 && nc == 0 && nt == 0, "the scope is released once, first"); ndes++; }
static void cc(void) { CHECK(hc && gc && nc == 0, "the interrupt callback, when an interrupt arrived"); CHECK(ndes == scope, "after the release"); nc++; CHECK(!got_ctrl_c, "not called again if it terminates"); }
static void tt(void) { CHECK(ht && ct && nt == 0, "the termination callback once"); CHECK(ndes == scope && nc == (gc && hc), "after the others"); nt++; CHECK(!can_terminate, "not called again if it terminates"); }
static void ended(int st, bool quick)
{
    CHECK(st == EXIT_FAILURE && st != 0, "the status is a failure"); CHECK(quick == gs, "exit handlers run unless a signal arrived");
    CHECK(ndes == scope && nc == (gc && hc) && nt == (ct && ht) && nprint >= 1, "released, told and reported"); if (nc && nt) REACH("both callbacks"); if (!ct) REACH("terminated before"); if (quick) REACH("signal"); else REACH("exit"); ASSUME(0);
}
void exit(int s) { ended(s, false); }
void _Exit(int s) { ended(s, true); }
void harness(void)
{
    thrd_except_tls = &C; scope = nd_bool(); C.is_raii = nd_bool() && scope; C.unstack = nd_bool(); C.ex = (char *)nd_size(); C.panic = nd_bool() ? NULL : (char *)nd_size();
    got_signal = gs = nd_bool(); got_ctrl_c = gc = nd_bool(); can_terminate = ct = nd_bool(); got_uncaught_exception = nd_bool();
    hc = nd_bool(); ht = nd_bool(); exception_ctrl_c_func = hc ? cc : NULL; exception_terminate_func = ht ? tt : NULL;
    ex_terminate();
    CHECK(0, "does not return");
}
