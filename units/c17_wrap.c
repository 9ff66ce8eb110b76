/*@vc
prop C17
src raii.c
func raii_concat
stub raii_init str_concat_ex
unwind 2
doc raii_concat passes its count and arguments, from the first, to str_concat_ex with the thread scope and returns its result
@*/
#include "vc.h"
#include "vc_va.h"
#include "raii.h"
static void *vc_arg(va_list *ap) { return 0; }
static memory_t M; static char R[1]; static int n, calls;
memory_t *raii_init(void) { return &M; }
string str_concat_ex(memory_t *m, int k, va_list ap)
{ CHECK(m == &M && k == n, "the thread scope, all arguments"); CHECK(ap.pos == 0 && ap.live, "from the first argument"); calls++; return R; }
#include "src_raii.c"
void harness(void) { n = nd_i32(); char *a = 0; CHECK(raii_concat(n, a, a, a) == R && calls == 1, "the concatenation is returned"); REACH("wrap"); }
