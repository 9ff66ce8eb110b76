/*@vc
prop C20 C25
src raii.c
func raii_get_args get_args args_in raii_value get_arg
stub raii_init raii_deferred
cases FN 0 2
unwind 2
timeout 600
doc access to a container of any number of arguments, in any registration state, at any index: the value of that position, all 256 bytes of it, or zero outside (proved for the integer member; that the compiler zeroes the rest of the union is observed by the driver); the scoped accessors register the container for release by args_free exactly if that has not been done yet, with the scope given, else that of the container, else the thread scope, and remember it (so repeated access registers once); nothing else of the container changes
@*/
#include "vc.h"
#include "raii.h"
static memory_t MT, MC, MG, *want; static struct args_s P; static int nreg;
memory_t *raii_init(void) { return &MT; }
size_t raii_deferred(memory_t *m, func_t f, void *d)
{ CHECK(m == want, "registered with the scope given, that of the container or the thread's"); CHECK(f == (func_t)args_free && d == &P, "the container, for release by args_free"); nreg++; return nd_size() >> 1; }
#include "src_raii.c"
void harness(void)
{
    size_t n = nd_size(), b = nd_size(), i; ASSUME(n < ((size_t)1 << 31) && b < sizeof(values_type));
    P.type = RAII_ARGS; P.n_args = n; P.defer_set = nd_i32(); P.is_returning = nd_i32(); P.args_size = nd_size(); P.context = nd_bool() ? &MC : NULL;
    P.args = vc_new(n * sizeof(raii_values_t), 0); ASSUME(P.args != NULL);
    int idx = nd_i32(); i = FN ? (size_t)idx : nd_size(); char w = 0; if (i < n) w = P.args[i].value.buffer[b];
    struct args_s o = P; int set = P.defer_set; memory_t *sc = nd_bool() ? &MG : NULL; values_type v;
    if (FN == 0) { v = args_in(&P, i); want = NULL; }
    else if (FN == 1) { want = sc ? sc : P.context ? P.context : &MT; v = raii_get_args(sc, &P, idx); }
    else { want = P.context ? P.context : &MT; v = get_args(&P, idx); }
    if (i < n) CHECK(v.buffer[b] == w, "the value of the position"); else CHECK(v.integer == 0, "zero where there is no argument");
    CHECK(nreg == (FN != 0 && !set), "registered exactly once");
    if (FN) CHECK(P.defer_set, "and remembered");
    CHECK(P.type == o.type && P.n_args == o.n_args && P.is_returning == o.is_returning && P.args_size == o.args_size && P.context == o.context && P.args == o.args && (FN || P.defer_set == o.defer_set), "the container is unchanged");
    if (i < n) CHECK(P.args[i].value.buffer[b] == w, "the arguments are unchanged");
    /* raii_value, get_arg */
    raii_values_t x; values_type u = FN == 1 ? get_arg(&x) : raii_value(&x); CHECK(u.buffer[b] == x.value.buffer[b], "the value of an object");
    u = FN == 1 ? get_arg(NULL) : raii_value(NULL); CHECK(u.integer == 0, "zero for none");
    REACH("access"); if (n > 9 && idx == 7 && w) REACH("a value");
}
