/*@vc
prop C20
src raii.c
func raii_args_for args_for
stub raii_args_ex
unwind 2
doc raii_args_for and args_for pass the format and their arguments, from the first, to raii_args_ex with the scope given or none, and return its result
@*/
#include "vc.h"
#include "vc_va.h"
#include "raii.h"
static void *vc_arg(va_list *ap) { return 0; }
static memory_t M, *want; static char F[2]; static struct args_s R; static int calls;
args_t raii_args_ex(memory_t *m, const char *d, va_list ap)
{ CHECK(m == want && d == F, "the scope and the format"); CHECK(ap.pos == 0 && ap.live, "from the first argument"); calls++; return &R; }
#include "src_raii.c"
void harness(void)
{
    want = nd_bool() ? &M : NULL; CHECK(raii_args_for(want, F, 1, 2) == &R && calls == 1, "the container is returned");
    want = NULL; CHECK(args_for(F, 1, 2) == &R && calls == 2, "the container is returned"); REACH("wrap");
}
