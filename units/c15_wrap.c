/*@vc
prop C15
src raii.c
func raii_split
stub raii_init str_split_ex
unwind 2
doc raii_split splits its arguments into the thread scope and returns the list, over the contract of str_split_ex
@*/
#include "vc.h"
#include "raii.h"
static memory_t M; static char A[2], D[2], *R[2]; static int cnt, e; static int *cp; static const char *dl;
memory_t *raii_init(void) { return &M; }
string *str_split_ex(memory_t *m, string_t s, string_t d, int *c)
{ CHECK(m == &M && s == A && d == dl && c == cp, "the arguments, into the thread scope"); e++; return nd_bool() ? R : NULL; }
#include "src_raii.c"
void harness(void)
{
    dl = nd_bool() ? D : NULL; cp = nd_bool() ? &cnt : NULL;
    string *r = raii_split(A, dl, cp); CHECK(e == 1 && (r == R || r == NULL), "the list is returned");
    if (r && dl && cp) REACH("wrap");
}
