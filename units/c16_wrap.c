/*@vc
prop C16
src raii.c
func raii_replace
stub raii_init str_replace_ex
unwind 2
doc raii_replace replaces into the thread scope and returns the result, over the contract of str_replace_ex
@*/
#include "vc.h"
#include "raii.h"
static memory_t M; static char A[2], D[2], X[2], R[2]; static int e;
memory_t *raii_init(void) { return &M; }
string str_replace_ex(memory_t *m, string_t s, string_t d, string_t x)
{ CHECK(m == &M && s == A && d == D && x == X, "the arguments, into the thread scope"); e++; return nd_bool() ? R : NULL; }
#include "src_raii.c"
void harness(void)
{
    string r = raii_replace(A, D, X); CHECK(e == 1 && (r == R || r == NULL), "the result is returned"); if (r) REACH("wrap");
}
