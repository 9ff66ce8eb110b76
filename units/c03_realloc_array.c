/*@vc
prop C03 C01
src raii.c
func realloc_array
stub raii_destroy
unwind 2
cases ES 0 5
doc realloc_array requests exactly nmemb * size bytes, or fails with ENOMEM instead of wrapping, for every nmemb and the element sizes 1, 2, 8, 24, 32 (the deferred list) and 48
assume element sizes other than those listed do not occur (the library only uses the size of a deferred entry)
@*/
#include "vc.h"
#include "raii.h"
void raii_destroy(void) { }
static size_t a1; static void *ap; static int n; static char B[2]; static bool fail;
void *vc_realloc(void *p, size_t s) { n++; ap = p; a1 = s; return fail ? NULL : B; }
#include "src_raii.c"
void harness(void)
{
    static const size_t ES_[6] = { 1, 2, 8, 24, sizeof(defer_func_t), 48 }; const size_t s = ES_[ES];
    size_t m = nd_size(); fail = nd_bool(); errno = 0;
    void *r = realloc_array(B + 1, m, s);
    if (m > (size_t)-1 / s) {
        CHECK(r == NULL && n == 0 && errno == ENOMEM, "overflow is rejected");
#if ES > 0
        REACH("overflow");
#endif
    }
    else { CHECK(n == 1 && ap == B + 1 && a1 == m * s && r == (fail ? NULL : B), "the exact size"); REACH("realloc_array"); }
}
