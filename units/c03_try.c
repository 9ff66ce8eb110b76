/*@vc
prop C03
src raii.c
func try_malloc try_calloc try_realloc
stub raii_destroy
unwind 2
doc try_malloc, try_calloc and try_realloc return what the allocator gives for exactly the requested size and throw the panic exception when it gives null (errno ENOMEM)
@*/
#include "vc.h"
#include "raii.h"
void raii_destroy(void) { }
static size_t a1, a2; static void *ap; static int n; static char B[2]; static bool fail, threw;
void *vc_malloc(size_t s) { n++; a1 = s; return fail ? NULL : B; }
void *vc_calloc(size_t c, size_t s) { n++; a1 = c; a2 = s; return fail ? NULL : B; }
void *vc_realloc(void *p, size_t s) { n++; ap = p; a1 = s; return fail ? NULL : B; }
void ex_throw(string_t ex, string_t file, int line, string_t function, string_t message, ex_backtrace_t *dump)
{ extern const char EX_NAME(panic)[]; CHECK(fail && ex == EX_NAME(panic) && errno == ENOMEM, "only a failure throws, as panic"); REACH("throws"); ASSUME(0); }
#include "src_raii.c"
void harness(void)
{
    int k = nd_i32(); size_t s = nd_size(); int c = nd_i32(); fail = nd_bool();
    if (k == 0) { void *r = try_malloc(s); CHECK(!fail && r == B && n == 1 && a1 == s, "try_malloc"); REACH("try_malloc"); }
    else if (k == 1) { void *r = try_calloc(c, s); CHECK(!fail && r == B && n == 1 && a1 == (size_t)c && a2 == s, "try_calloc"); REACH("try_calloc"); }
    else if (k == 2) { void *r = try_realloc(B + 1, s); CHECK(!fail && r == B && n == 1 && ap == B + 1 && a1 == s, "try_realloc"); REACH("try_realloc"); }
}
