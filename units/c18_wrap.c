/*@vc
prop C18 C19
src raii.c
func raii_encode64 raii_decode64
stub raii_init str_encode64_ex str_decode64_ex
unwind 2
doc raii_encode64 and raii_decode64 encode and decode their argument into the thread scope, over the contracts of str_encode64_ex and str_decode64_ex
@*/
#include "vc.h"
#include "raii.h"
static memory_t M; static unsigned char A[2], R[2]; static int e, d;
memory_t *raii_init(void) { return &M; }
u_string str_encode64_ex(memory_t *m, u_string_t s) { CHECK(m == &M && s == A, "encode into the thread scope"); e++; return nd_bool() ? R : NULL; }
u_string str_decode64_ex(memory_t *m, u_string_t s) { CHECK(m == &M && s == A, "decode into the thread scope"); d++; return nd_bool() ? R + 1 : NULL; }
#include "src_raii.c"
void harness(void)
{
    u_string r = raii_encode64(A); CHECK(e == 1 && d == 0 && (r == R || r == NULL), "the encoding is returned");
    u_string q = raii_decode64(A); CHECK(e == 1 && d == 1 && (q == R + 1 || q == NULL), "the decoding is returned");
    if (r && q) REACH("both");
}
