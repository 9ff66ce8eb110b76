/*@vc
prop C07
src except.c
func ex_signal ex_signal_reset ex_handler
stub ex_throw ex_init
cases WHAT 0 2
unwind 34
timeout 600
doc the signal table, with any content reachable by registrations (n <= 32 distinct signals): registering replaces an earlier exception of that signal, else adds it, and the handler of the library is installed; every other signal (arbitrary) keeps its exception; a full table or a refused installation changes nothing;
\ a signal that arrives is thrown once as exactly the exception registered for it; resetting restores the default action and leaves the table alone
assume registered exceptions are not null; sigaction installs the given action or fails without effect
@*/
#include "vc.h"
#include "raii.h"
#include <stdio.h>
#include "vc_loops.h"
#include "src_except.c"
static ex_context_t C; static int nsa, sasig, nthrow, nerr; static void (*sah)(int); static bool fail1, fail2; static const char *tex; static int tline;
ex_context_t *ex_init(void) { return &C; }
int fprintf(FILE *f, const char *s, ...) { nerr++; return 0; }
int sigemptyset(sigset_t *s) { return fail1 ? -1 : 0; }
int sigaction(int sig, const struct sigaction *a, struct sigaction *o) { nsa++; sasig = sig; sah = a->sa_handler; return fail2 ? -1 : 0; }
static size_t n; static int thesig;
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt) { nthrow++; tex = ex; CHECK(msg == NULL && C.caught == thesig, "thrown as a signal, without a message"); CHECK(got_signal && (thesig != SIGINT || got_ctrl_c), "the signal, and an interrupt, are noted"); }
/* the exception registered for a signal: the contract's own reading of the table */
static const char *lookup(int sig) { for (size_t i = 0; i < 32; i++) if (ex_sig[i].ex && ex_sig[i].sig == sig) return ex_sig[i].ex; return NULL; }
static bool wf(void) { bool r = true; for (size_t i = 0; i < 32; i++) { if (i > 0 && !ex_sig[i - 1].ex && ex_sig[i].ex) r = false; if (!ex_sig[i].ex && ex_sig[i].sig != 0) r = false; if (ex_sig[i].ex && ex_sig[i].sig <= 0) r = false; } return r; }
static bool distinct(int s) { int c = 0; for (size_t i = 0; i < 32; i++) if (ex_sig[i].ex && ex_sig[i].sig == s) c++; return c <= 1; }
void harness(void)
{
    for (size_t i = 0; i < 32; i++) { ex_sig[i].ex = nd_bool() ? NULL : (char *)nd_size(); ex_sig[i].sig = nd_i32(); }
    int sig = nd_i32(), other = nd_i32(); ASSUME(sig > 0 && other > 0 && other != sig); thesig = sig;
    ASSUME(wf() && distinct(sig) && distinct(other));
    fail1 = nd_bool(); fail2 = nd_bool(); got_ctrl_c = nd_bool(); got_signal = nd_bool(); exception_signal_set = nd_bool();
    bool full = ex_sig[31].ex != NULL; const char *was = lookup(sig), *ow = lookup(other), *x = (char *)nd_size(); ASSUME(x);
#if WHAT == 0
    ex_signal(sig, x);
    bool added = (was || !full) && !fail1 && !fail2;
    CHECK(lookup(sig) == (added ? x : was), "registered, replacing an earlier one, unless the table is full or the handler cannot be installed");
    CHECK(lookup(other) == ow, "every other signal keeps its exception");
    CHECK(wf() && distinct(sig) && distinct(other), "one exception for a signal");
    if (added) CHECK(nsa == 1 && sasig == sig && sah == ex_handler && nerr == 0 && exception_signal_set, "the handler is installed for that signal"); else CHECK(nerr == 1, "reported");
    if (full && !was) CHECK(nsa == 0, "no handler is installed when the table is full");
    if (added && was && ow) REACH("replaced"); if (added && !was && n == 0) REACH("added"); if (full && !was) REACH("full"); if (fail2) REACH("refused");
#elif WHAT == 1
    bool gc = got_ctrl_c; ASSUME(was); C.ex = (char *)nd_size(); C.panic = (char *)nd_size();
    ex_handler(sig);
    CHECK(nthrow == 1 && tex == was, "thrown once, as the exception registered for that signal");
    CHECK(got_ctrl_c == (gc || sig == SIGINT), "an interrupt is noted, nothing else as one"); CHECK(lookup(sig) == was && lookup(other) == ow, "the table is unchanged");
    REACH("delivered"); if (sig == SIGINT) REACH("interrupt");
#else
    ex_signal_reset(sig);
    CHECK(lookup(sig) == was && lookup(other) == ow && wf(), "the table is unchanged"); CHECK(nsa == !fail1, "once"); if (!fail1) CHECK(sasig == sig && sah == SIG_DFL, "the default action of that signal is restored");
    CHECK(!exception_signal_set, "the next block sets signals up again"); if (!fail1 && !fail2) REACH("reset");
#endif
}
