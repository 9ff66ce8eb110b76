/*@vc
prop C17
src swar.c
func str_concat_ex
unwind 2
doc lemma used by c17_concat, by induction: sums of lengths are ordered, P(a) + LEN(a) <= P(b) for a < b, when no partial sum reaches 2^40
@*/
#include "vc.h"
#include "raii.h"
size_t __CPROVER_uninterpreted_len(size_t);
size_t __CPROVER_uninterpreted_sum(size_t);
#define LEN(i) __CPROVER_uninterpreted_len((size_t)(i))
#define P(i) __CPROVER_uninterpreted_sum((size_t)(i))
#define TMAX ((size_t)1 << 40)
#define DEF(i) (LEN(i) < TMAX && P(i) < TMAX && P((size_t)(i) + 1) == P(i) + LEN(i) && P((size_t)(i) + 1) < TMAX)
void harness(void)
{
    size_t a = nd_size(), b = nd_size(); ASSUME(a < ((size_t)1 << 60) && b < ((size_t)1 << 60) && a < b);
    ASSUME(DEF(a)); CHECK(P(a) + LEN(a) <= P(a + 1), "base");
    ASSUME(P(a) + LEN(a) <= P(b)); ASSUME(DEF(b));
    CHECK(P(a) + LEN(a) <= P(b + 1), "step"); CHECK(P(b) <= P(b + 1), "order of neighbours"); REACH("lemma");
}
