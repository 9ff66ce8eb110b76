/*@vc
prop C04
src except.c
func ex_unwind_stack
stub raii_deferred_clean raii_local
nloops ex_unwind_stack 1
loop ex_unwind_stack 0
 havoc k temp got_uncaught_exception nk vn Wv W.type cur
 hcode p = NODE(k);
 inv k <= N && p == NODE(k) && (k <= gk ==> nk == 0 && !vn && W.type == ex_protected_st) && (k > gk ==> nk == vn)
 inv vn == 0 || vn == 1
 begin node(); if (k < N) ASSUME(temp == NULL || temp != (k == gk ? Wv : Bv));
 step k++;
 dec (long)(N - k)
unwind 2
timeout 600
doc ex_unwind_stack on a block with any number N of protected pointers: pointer gk (arbitrary) is passed to its release function exactly once if its value is not null at its turn, with that value and function, newest first (after all newer ones, none of which is called again); also when the block owns scope memory, which is released first, through the hook or, without one, as the thread scope; afterwards nothing is protected in the block, the other blocks and the rest of the context are unchanged, and while releasing the context says that it unwinds
assume consecutive protected pointers hold different values (two equal ones in a row end the walk, by design)
@*/
#include "vc.h"
#include "raii.h"
static ex_context_t C, Outer; static ex_ptr_t W, B0, B1, Old; static void *Wv, *Bv; static size_t N, k, gk, cur; static int nk, vn, nhook, nclean; static memory_t TS;
#define NODE(i) ((i) == N ? (ex_ptr_t *)NULL : (i) == gk ? &W : ((i) & 1) ? &B1 : &B0)
static void others(void)      /* what a release function may do: change other protected variables, protect and unprotect pointers of its own */
{ CHECK(C.unstack == 1, "the context says that it unwinds"); if (k < gk) Wv = (void *)nd_size(); }
static void fw(void *d)
{ CHECK(k == gk && d == Wv && d, "the release function of the pointer, with its current value, at its turn"); CHECK(nk == 0, "at most once"); if (nk < 2) nk++; others(); }
static void fb(void *d) { CHECK(k != gk && d == Bv && d, "the release function of the pointer at its turn"); others(); }
memory_t *raii_local(void) { return &TS; }
static bool hook, israii; static void *data;
static void the_hook(void *d) { CHECK(hook && d == data && k == 0 && nhook == 0, "the memory of the block is released first, once, through the hook"); nhook++; others(); Wv = (void *)nd_size(); }
void raii_deferred_clean(void) { CHECK(!hook && israii && data == &TS && k == 0 && nclean == 0, "the memory of the thread scope is released first, once"); nclean++; others(); Wv = (void *)nd_size(); }
static void node(void);
#include "vc_loops.h"
#include "src_except.c"
static void node(void)
{
    if (k >= N) return;
    if (k == gk) { vn = Wv != NULL; return; }
    ex_ptr_t *b = NODE(k); b->type = ex_protected_st; b->next = NODE(k + 1); b->func = fb; b->ptr = &Bv; Bv = (void *)nd_size();
}
void harness(void)
{
    N = nd_size(); gk = nd_size(); ASSUME(N < ((size_t)1 << 40) && gk < N); k = 0;
    W.type = ex_protected_st; W.next = NODE(gk + 1); W.func = fw; W.ptr = &Wv; Wv = (void *)nd_size(); node();
    vn = 0;
    C.type = ex_context_st; C.is_unwind = nd_bool(); C.is_raii = israii = nd_bool(); C.is_guarded = nd_bool(); C.data = data = nd_bool() ? (void *)&TS : (void *)nd_size(); C.next = &Outer; C.state = nd_i32(); C.caught = nd_i32();
    C.stack = NODE(0); Outer.stack = &Old; Old.type = ex_protected_st; C.unstack = 0; C.prev = (void *)nd_size(); C.ex = (char *)nd_size(); C.panic = (char *)nd_size();
    hook = nd_bool(); exception_unwind_func = hook ? the_hook : NULL; ex_context_t o = C;
    ex_unwind_stack(&C);
    CHECK(nk == vn, "released exactly once if not null");
    CHECK(C.stack == NULL && C.unstack == 0, "nothing is protected in the block any more");
    CHECK(C.state == o.state && C.ex == o.ex && C.panic == o.panic && C.data == o.data && C.prev == o.prev && C.next == &Outer && C.is_unwind == o.is_unwind && C.is_raii == o.is_raii && C.is_guarded == o.is_guarded && C.caught == o.caught && C.type == o.type, "the rest of the context is unchanged");
    CHECK(Outer.stack == &Old && Old.type == ex_protected_st, "pointers of enclosing blocks are left alone");
    CHECK(nhook == (o.is_unwind && hook) && nclean == (o.is_unwind && !hook && o.is_raii && data == (void *)&TS), "owned memory is released exactly when the block owns some");
    if (nk && gk > 100 && N > gk + 5) REACH("released"); if (!vn) REACH("null"); if (nhook && nk) REACH("guard"); if (nclean && nk) REACH("thread scope");
}
