/* C07: registrations against a map, and signals raised in blocks */
#include "vcd.h"
#include "raii.h"
#include <signal.h>
#include <pthread.h>
int vcd_fork_each = 1;
extern const char EX_NAME(sig_segv)[], EX_NAME(sig_abrt)[], EX_NAME(sig_fpe)[], EX_NAME(sig_ill)[], EX_NAME(sig_int)[], EX_NAME(sig_term)[], EX_NAME(sig_quit)[], EX_NAME(sig_hup)[], EX_NAME(sig_winch)[], EX_NAME(sig_trap)[], EX_NAME(sig_alrm)[], EX_NAME(sig_bus)[];
static const struct { int s; const char *e, *t; } std[] = { { SIGSEGV, EX_NAME(sig_segv), "sig_segv" }, { SIGABRT, EX_NAME(sig_abrt), "sig_abrt" }, { SIGFPE, EX_NAME(sig_fpe), "sig_fpe" }, { SIGILL, EX_NAME(sig_ill), "sig_ill" }, { SIGINT, EX_NAME(sig_int), "sig_int" }, { SIGTERM, EX_NAME(sig_term), "sig_term" },
    { SIGQUIT, EX_NAME(sig_quit), "sig_quit" }, { SIGHUP, EX_NAME(sig_hup), "sig_hup" }, { SIGWINCH, EX_NAME(sig_winch), "sig_winch" }, { SIGTRAP, EX_NAME(sig_trap), "sig_trap" }, { SIGALRM, EX_NAME(sig_alrm), "sig_alrm" }, { SIGBUS, EX_NAME(sig_bus), "sig_bus" } };
static const char *map[70]; static int nmap; static char names[200][8];
static int installable(int s) { return s >= 1 && s <= 64 && s != SIGKILL && s != SIGSTOP && s != 32 && s != 33; }
static void reg(int s, const char *e)
{ if (!installable(s)) return; if (!map[s]) { if (nmap == 32) return; nmap++; } map[s] = e; }
static void (*disp(int s))(int) { struct sigaction a; sigaction(s, NULL, &a); return a.sa_handler; }
static void check(int s)
{
    const char *got = NULL, *msg = (char *)1; int n = 0;
    if (!map[s]) { VCD_CHECK(disp(s) == SIG_DFL, "a handler is installed for signal %d, which is not registered", s); return; }
    VCD_CHECK(disp(s) != SIG_DFL, "no handler for signal %d", s);
    try { raise(s); n = 100; } catch_any { n++; got = err; msg = ex_err.panic; } end_try;
    VCD_CHECK(n == 1 && got == map[s] && msg == NULL, "signal %d is thrown as %s, expected %s", s, got && n == 1 ? got : "nothing", map[s]);
}
static void *scoped(void *x) { raii_init(); try { x = NULL; } end_try; return x; }
void vcd_trial(uint64_t n)
{
    { int s; for (s = 1; s <= 64; s++) if (installable(s)) signal(s, SIG_DFL); }
    int i, k = (int)vcd_below(vcd_below(2) ? 10 : 120), setup = (int)vcd_below(2); exception_signal_set = true;
    if (setup) exception_signal_set = false, vcd_note("setup ");
    if (setup) { ex_signal_setup(); for (i = 0; i < 12; i++) { VCD_CHECK(!strcmp(std[i].e, std[i].t), "name"); reg(std[i].s, std[i].e); } }
    for (i = 0; i < k; i++) { int s = 1 + (int)vcd_below(vcd_below(2) ? 31 : 64); sprintf(names[i], "e%d", i); vcd_note("%d ", s); ex_signal(s, names[i]); reg(s, names[i]); }
    if (vcd_below(3) == 0) { pthread_t t; vcd_note("another thread makes its scope "); if (!pthread_create(&t, NULL, scoped, NULL)) pthread_join(t, NULL); }
    for (i = 0; i < 20; i++) { int s = 1 + (int)vcd_below(64); if (!installable(s)) continue; vcd_note("raise %d ", s); if (vcd_below(4) == 0) { try { check(s); } end_try; } else check(s); }
    exception_signal_set = true;
    for (i = 1; i <= 64; i++) if (installable(i)) { const char *w = map[i]; VCD_CHECK((disp(i) == SIG_DFL) == (w == NULL), "handler of signal %d", i); }
    int s = 1 + (int)vcd_below(31); if (installable(s)) { ex_signal_reset(s); VCD_CHECK(disp(s) == SIG_DFL, "signal %d is not reset", s); exception_signal_set = true; for (i = 1; i <= 64; i++) if (i != s && installable(i)) VCD_CHECK((disp(i) == SIG_DFL) == (map[i] == NULL), "resetting %d changed %d", s, i); }
    ex_signal_default(); exception_signal_set = true;
    for (i = 0; i < 12; i++) VCD_CHECK(disp(std[i].s) == SIG_DFL, "signal %d not reset", std[i].s);
    vcd_end();
}
