/*@vc
prop C07
src except.c
func ex_signal_setup ex_signal_default
stub ex_signal ex_signal_reset
unwind 20
doc the standard set-up registers every handled signal exactly once, as the exception of its name (the name's text, too), and nothing else; the default set-up resets exactly these
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
static int w, nset, nreset, total; static const char *ex;
void ex_signal(int sig, const char *e) { total++; if (sig == w) { nset++; ex = e; } }
void ex_signal_reset(int sig) { total++; if (sig == w) nreset++; }
#include "src_except.c"
static bool same(const char *a, const char *b) { for (int i = 0; ; i++) { if (a[i] != b[i]) return false; if (!a[i]) return true; } }
void harness(void)
{
    static const struct { int sig; const char *ex, *text; } want[] = { { SIGSEGV, EX_NAME(sig_segv), "sig_segv" }, { SIGABRT, EX_NAME(sig_abrt), "sig_abrt" }, { SIGFPE, EX_NAME(sig_fpe), "sig_fpe" }, { SIGILL, EX_NAME(sig_ill), "sig_ill" },
        { SIGINT, EX_NAME(sig_int), "sig_int" }, { SIGTERM, EX_NAME(sig_term), "sig_term" }, { SIGQUIT, EX_NAME(sig_quit), "sig_quit" }, { SIGHUP, EX_NAME(sig_hup), "sig_hup" }, { SIGWINCH, EX_NAME(sig_winch), "sig_winch" },
        { SIGTRAP, EX_NAME(sig_trap), "sig_trap" }, { SIGALRM, EX_NAME(sig_alrm), "sig_alrm" }, { SIGBUS, EX_NAME(sig_bus), "sig_bus" } };
    int k = nd_i32(); bool known = k >= 0 && k < 12; w = known ? want[k].sig : nd_i32();
    for (int i = 0; i < 12; i++) if (!known) ASSUME(w != want[i].sig);
    if (nd_bool()) {
        ex_signal_setup();
        CHECK(nset == known, "every handled signal is registered exactly once, no other"); CHECK(!known || ex == want[k].ex, "as the exception of its name"); if (known) CHECK(same(ex, want[k].text), "whose text is that name"); CHECK(nreset == 0, "none is reset"); REACH("set up");
    } else {
        ex_signal_default();
        CHECK(nreset == known && nset == 0, "exactly the handled signals are reset"); REACH("default");
    }
}
