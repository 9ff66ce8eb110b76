/*@vc
prop C19
src swar.c
func str_decode64_ex
unwind 2
doc lemma used by c19_decode, by induction: the number of alphabet characters among the first i bytes is at most i, and grows with i
@*/
#include "vc.h"
#include "raii.h"
size_t __CPROVER_uninterpreted_cnt(size_t); unsigned char __CPROVER_uninterpreted_alpha(size_t);
#define CNT(i) __CPROVER_uninterpreted_cnt((size_t)(i))
#define DEF(i) (CNT((size_t)(i) + 1) == CNT(i) + (__CPROVER_uninterpreted_alpha(i) ? 1 : 0))
void harness(void)
{
    size_t a = nd_size(), b = nd_size(); ASSUME(a <= b && b < ((size_t)1 << 60));
    if (a == 0) { ASSUME(CNT(0) == 0); CHECK(CNT(a) <= a, "base of the bound"); REACH("base"); }
    CHECK(CNT(a) <= CNT(a), "base of the order");
    ASSUME(CNT(b) <= b && CNT(a) <= CNT(b) && DEF(b));
    CHECK(CNT(b + 1) <= b + 1, "step of the bound"); CHECK(CNT(a) <= CNT(b + 1), "step of the order"); REACH("lemma");
}
