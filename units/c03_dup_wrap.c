/*@vc
prop C03
src raii.c
func raii_memdup
stub raii_init str_memdup_ex
unwind 2
doc raii_memdup duplicates into the thread scope, over the contract of str_memdup_ex
@*/
#include "vc.h"
#include "raii.h"
static memory_t M; static char A[2], R[2]; static size_t n; static int c;
memory_t *raii_init(void) { return &M; }
string str_memdup_ex(memory_t *m, const_t s, size_t k) { CHECK(m == &M && s == A && k == n, "arguments"); c++; return R; }
#include "src_raii.c"
void harness(void) { n = nd_size(); CHECK(raii_memdup(A, n) == R && c == 1, "the copy is returned"); REACH("memdup"); }
