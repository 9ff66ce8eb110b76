/*@vc
prop C16
src swar.c
func str_replace_ex
unwind 2
doc lemma used by c16_replace, by induction over the defining equations: steps are ordered in the text, in the output and in the count
@*/
#include "vc.h"
#include "raii.h"
size_t __CPROVER_uninterpreted_next(size_t);
size_t __CPROVER_uninterpreted_start(size_t);
size_t __CPROVER_uninterpreted_outp(size_t);
size_t __CPROVER_uninterpreted_count(size_t);
#define NX(p) __CPROVER_uninterpreted_next((size_t)(p))
#define OCC(p) (NX(p) == (p))
#define S(i) __CPROVER_uninterpreted_start((size_t)(i))
#define O(i) __CPROVER_uninterpreted_outp((size_t)(i))
#define C(i) __CPROVER_uninterpreted_count((size_t)(i))
#define DEFN(i) (S(i) < n && O(i) < ((size_t)1 << 50) && C(i) < n && (OCC(S(i)) \
    ? S(i) + d <= n && S((size_t)(i) + 1) == S(i) + d && C((size_t)(i) + 1) == C(i) + 1 && O((size_t)(i) + 1) == O(i) + w \
    : S((size_t)(i) + 1) == S(i) + 1 && C((size_t)(i) + 1) == C(i) && O((size_t)(i) + 1) == O(i) + 1))
#define ORDER(a, b) (S((size_t)(a) + 1) <= S(b) && O((size_t)(a) + 1) <= O(b) && C((size_t)(a) + 1) <= C(b))
void harness(void)
{
    size_t n = nd_size(), d = nd_size(), w = nd_size(), a = nd_size(), b = nd_size();
    ASSUME(n < ((size_t)1 << 40) && d >= 1 && d < ((size_t)1 << 40) && w < ((size_t)1 << 40) && b <= n && a < b);
    CHECK(ORDER(a, a + 1), "base");
    ASSUME(ORDER(a, b) && DEFN(b)); CHECK(ORDER(a, b + 1), "step"); REACH("lemma");
    /* the count stays below the position: C(i) <= S(i) */
    ASSUME(C(b) <= S(b)); CHECK(C(b + 1) <= S(b + 1), "no more occurrences than bytes"); CHECK(S(b + 1) <= n && S(b) < S(b + 1), "every step advances");
}
