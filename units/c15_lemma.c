/*@vc
prop C15
src swar.c
func str_split_ex
unwind 2
doc lemma used by c15_split, by induction over the defining equations: pieces are ordered, E(a) + d <= T(b) for a < b < N
@*/
#include "vc.h"
#include "raii.h"
#define NONE ((size_t)-1)
size_t __CPROVER_uninterpreted_next(size_t);
size_t __CPROVER_uninterpreted_start(size_t);
#define NX(p) __CPROVER_uninterpreted_next((size_t)(p))
#define T(i) __CPROVER_uninterpreted_start((size_t)(i))
#define E(i) ((size_t)(i) + 1 == N ? n : NX(T(i)))
#define DEFN(i) ((size_t)(i) + 1 == N ? T(i) <= n && NX(T(i)) == NONE : T(i) <= NX(T(i)) && NX(T(i)) < n && NX(T(i)) + d <= n && T((size_t)(i) + 1) == NX(T(i)) + d)
void harness(void)
{
    size_t n = nd_size(), d = nd_size(), N = nd_size(), a = nd_size(), b = nd_size();
    ASSUME(n < ((size_t)1 << 40) && d >= 1 && d < ((size_t)1 << 40) && N < 0x7fffffff && b < N && a < b && DEFN(a));
    CHECK(E(a) + d <= T(a + 1), "base");
    if (b + 1 < N) { ASSUME(DEFN(b) && E(a) + d <= T(b)); CHECK(E(a) + d <= T(b + 1), "step"); REACH("lemma"); }
}
