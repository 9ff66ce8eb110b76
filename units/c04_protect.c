/*@vc
prop C04
src except.c
func ex_protect_ptr ex_unprotected_ptr ex_local
stub ex_init
nloops ex_unprotected_ptr 2
loop ex_unprotected_ptr 0
 pre c = 0;
 havoc c
 hcode ctx = CTX(c);
 inv c <= M && c <= gc && ctx == CTX(c) && C.stack == stack0 && D.stack == dstack0 && W.type != ex_protected_st
 begin context();
 step c++;
 dec (long)(M - c)
loop ex_unprotected_ptr 1
 pre k = 0;
 havoc k
 hcode p = NODE(k);
 inv k <= LEN && p == NODE(k) && (c == gc ==> k <= gk)
 begin node();
 step k++;
 dec (long)(LEN - k)
unwind 2
timeout 600
doc ex_protect_ptr puts a pointer on top of those of the active block, keeping the others; ex_unprotected_ptr on any chain of active blocks, each with any number of protected pointers: the block in which the pointer is protected (at any place gk of its chain) keeps exactly the older ones, every other block is unchanged, wherever it is called from; an unprotected one is left alone; unprotected() keeps exactly the older ones of the active block
@*/
#include "vc.h"
#include "raii.h"
static ex_context_t C, D, X0, X1; static ex_ptr_t W, B0, B1, older; static size_t M, c, k, gc, gd, gk, ln, lw; static ex_ptr_t *stack0, *dstack0;
/* block gc holds the pointer at place gk of lw, block gd (another) is watched, too */
#define CTX(i) ((i) == M ? (ex_context_t *)NULL : (i) == gc ? &C : (i) == gd ? &D : ((i) & 1) ? &X1 : &X0)
#define LEN (c == gc ? lw : ln)
#define NODE(i) ((i) == LEN ? (ex_ptr_t *)NULL : c == gc && (i) == gk ? &W : ((i) & 1) ? &B1 : &B0)
static void context(void)
{
    k = 0; ln = nd_size(); ASSUME(ln < ((size_t)1 << 40));
    if (c >= M) return;
    ex_context_t *x = CTX(c); x->next = CTX(c + 1); if (c != gc && c != gd) x->stack = NODE(0);
    if (c == gd) ASSUME(D.stack == NODE(0));
}
static void node(void) { if (k >= LEN || NODE(k) == &W) return; NODE(k)->type = nd_i32(); NODE(k)->next = NODE(k + 1); }
bool is_type(void *o, raii_type t) { return ((var_t *)o)->type == t; }  /* c24_types */
ex_context_t *ex_init(void) { return &C; }
#include "vc_loops.h"
#include "src_except.c"
static void fn(void *p) { }
void harness(void)
{
    /* protect */
    void *v, *w; ex_ptr_t a; C.type = ex_context_st; C.stack = nd_bool() ? &older : NULL; ex_ptr_t *s = C.stack; ex_context_t o = C;
    ex_ptr_t r = ex_protect_ptr(&a, &v, fn);
    CHECK(C.stack == &a && a.next == s && a.type == ex_protected_st && a.func == fn && a.ptr == &v, "on top of the others, with variable and release function");
    CHECK(r.next == s && r.type == ex_protected_st && r.func == fn && r.ptr == &v, "a copy is returned");
    CHECK(C.next == o.next && C.state == o.state && C.unstack == o.unstack && C.ex == o.ex && C.data == o.data && C.is_unwind == o.is_unwind, "the rest of the block is unchanged");
    protected(w, fn); thrd_except_tls = &C;
    CHECK(C.stack == &EX_PNAME(w) && EX_PNAME(w).next == &a && EX_PNAME(w).ptr == &w && EX_PNAME(w).func == fn, "protected() protects");
    unprotected(w); CHECK(C.stack == &a && a.type == ex_protected_st && a.next == s, "unprotected() keeps exactly the older ones");
    /* unprotect */
    M = nd_size(); gc = nd_size(); gd = nd_size(); gk = nd_size(); lw = nd_size(); ASSUME(M < ((size_t)1 << 40) && gd < M && gd != gc && lw < ((size_t)1 << 40) && gk < lw);
    c = gc; W.next = NODE(gk + 1); W.type = nd_bool() ? ex_protected_st : nd_i32(); bool is = W.type == ex_protected_st; C.stack = stack0 = NODE(0); c = 0;
    D.stack = dstack0 = nd_bool() ? NULL : &B0; thrd_except_tls = CTX(0); if (M == 0) thrd_except_tls = NULL;
    ex_ptr_t *wn = W.next; k = 0;
    ex_unprotected_ptr(&W);
    CHECK(W.type != ex_protected_st && W.next == wn, "the protection is gone");
    CHECK(D.stack == dstack0, "every other block is unchanged");
    CHECK(C.stack == (is && gc < M ? wn : stack0), "the block keeps exactly the older ones");
    if (is && gc < M && gc > gd && gk > 4) REACH("outer block"); if (!is) REACH("not protected"); if (is && gc >= M) REACH("in no active block");
}
