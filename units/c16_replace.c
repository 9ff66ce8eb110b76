/*@vc
prop C16
src swar.c
func str_replace_ex str_copy
stub simd_strlen calloc_full try_calloc
nloops str_replace_ex 2
loop str_replace_ex 0
 pre k = 0;
 havoc i cnt k
 inv k <= K && i == S(k) && cnt == C(k) && i + cnt * (newWlen - oldWlen) == O(k)
 begin AXIOM(k) c0 = cnt; m0 = cnt * (newWlen - oldWlen);
 step k++; if (cnt == c0) ASSUME(cnt * (newWlen - oldWlen) == m0); if (cnt == c0 + 1) ASSUME(cnt * (newWlen - oldWlen) == m0 + (newWlen - oldWlen));
 dec (long)(K - k)
loop str_replace_ex 1
 pre k = 0;
 ptr haystack=gh
 obj result
 havoc i k
 inv k <= K && SAME(haystack, gh) && OFF(haystack) == S(k) && i == O(k)
 inv gk < k && OCC(S(gk)) && gb < w ==> result[O(gk) + gb] == gx[gb]
 inv gk < k && !OCC(S(gk)) ==> result[O(gk)] == gh[S(gk)]
 begin AXIOM(k)
 step k++;
 dec (long)(K - k)
cases SCOPED 0 1
unwind 2
timeout 800
doc str_replace_ex on any text, non-empty pattern and replacement (below 2^40 bytes, result below 2^50): with the text cut from the left into K steps, S(k) the start of step k, each an occurrence of the pattern or one byte, the result is null when no step is an occurrence; otherwise it is a block of exactly O(K)+1 bytes, terminated at O(K), where step gk (arbitrary) left at O(gk) the replacement (byte gb arbitrary) or the byte of the text; every write is inside the block; the inputs are unchanged. S, O, C (occurrences before step k) by their defining equations over strstr and the lemmas c16_lemma and c16_mul
assume strstr returns the first occurrence, calloc_full/try_calloc return zeroed blocks (c03_alloc, c03_try)
@*/
#include "vc.h"
#include "raii.h"
#define NONE ((size_t)-1)
static memory_t M, *DEF; static char *gh, *gd, *gx, *out; static size_t n, d, w, K, k, gk, gb, c0, m0; static int nalloc;
size_t __CPROVER_uninterpreted_next(size_t);
size_t __CPROVER_uninterpreted_start(size_t);
size_t __CPROVER_uninterpreted_outp(size_t);
size_t __CPROVER_uninterpreted_count(size_t);
#define NX(p) __CPROVER_uninterpreted_next((size_t)(p))
#define OCC(p) (NX(p) == (p))
#define S(i) __CPROVER_uninterpreted_start((size_t)(i))
#define O(i) __CPROVER_uninterpreted_outp((size_t)(i))
#define C(i) __CPROVER_uninterpreted_count((size_t)(i))
#define DEFN(i) (S(i) < n && O(i) < ((size_t)1 << 50) && C(i) < n && (OCC(S(i)) \
    ? S(i) + d <= n && S((size_t)(i) + 1) == S(i) + d && C((size_t)(i) + 1) == C(i) + 1 && O((size_t)(i) + 1) == O(i) + w \
    : S((size_t)(i) + 1) == S(i) + 1 && C((size_t)(i) + 1) == C(i) && O((size_t)(i) + 1) == O(i) + 1))
#define ORDER(a, b) (S((size_t)(a) + 1) <= S(b) && O((size_t)(a) + 1) <= O(b) && C((size_t)(a) + 1) <= C(b))
#define AXIOM(i) { if ((size_t)(i) < K) { ASSUME(DEFN(i)); ASSUME(ORDER(i, K)); ASSUME(gh[S(i)] != 0); \
    if ((size_t)(i) < gk) ASSUME(ORDER(i, gk)); if ((size_t)(i) > gk) ASSUME(ORDER(gk, i)); } }
size_t simd_strlen(const char *s) { if (s == gd) return d; CHECK(s == gx, "length of the pattern or of the replacement"); return w; }
char *vcm_strstr(const char *h, const char *x)
{
    CHECK(x == gd && SAME(h, gh) && OFF(h) <= n, "the pattern is searched in the text");
    size_t p = OFF(h), r = NX(p); if (r == NONE) return NULL;
    ASSUME(p <= r && r <= n && r + d <= n); return gh + r;
}
static void *new_block(size_t size)
{
    CHECK(nalloc == 0, "one block"); nalloc++;
    CHECK(size == O(K) + 1, "the block has exactly the size of the result");
    if (nd_bool()) ASSUME(0);   /* panics */
    out = vc_new(O(K) + 1, 1); ASSUME(out != NULL); return out;
}
void *calloc_full(memory_t *m, int c, size_t size, func_t f) { CHECK(m == DEF && m && c == 1 && f == (func_t)vc_free, "a block of the scope"); return new_block(size); }
void *try_calloc(int c, size_t size) { CHECK(!DEF && c == 1, "a block without scope"); return new_block(size); }
void *vcm_cpy(void *dst, const void *s, size_t len)
{
    CHECK(s == gx && len == w && SAME(dst, out) && OFF(dst) + w <= OBJSZ(out), "the replacement is copied into the block");
    size_t o = OFF(dst), q = O(gk) + gb;
    if (q >= o && q < o + w) out[q] = gx[q - o];
    q = O(gk); if (q >= o && q < o + w) out[q] = gx[q - o];
    q = O(K); if (q >= o && q < o + w) out[q] = gx[q - o];
    return dst;
}
#undef memcpy
#define memcpy vcm_cpy
#undef strstr
#define strstr vcm_strstr
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    n = nd_size(); d = nd_size(); w = nd_size(); K = nd_size(); gk = nd_size(); gb = nd_size();
    ASSUME(n < ((size_t)1 << 40) && d >= 1 && d < ((size_t)1 << 40) && w < ((size_t)1 << 40) && K <= n && (gk < K || (K == 0 && gk == 0)) && gb <= w);
    gh = vc_new(n + 1, 0); gd = vc_new(d + 1, 0); gx = vc_new(w + 1, 0); ASSUME(gh && gd && gx && gh[n] == 0 && gd[d] == 0 && gx[w] == 0);
    vc_reg(gh, n + 1); vc_reg(gd, d + 1); vc_reg(gx, w + 1);
    ASSUME(S(0) == 0 && C(0) == 0 && O(0) == 0 && S(K) == n && O(K) < ((size_t)1 << 50) && C(K) <= n);
    AXIOM(0) AXIOM(gk)
    size_t a = K ? S(gk) : 0; char v = gh[a], xb = gx[gb]; bool occ = K && OCC(a);
    int null = nd_i32(); DEF = SCOPED ? &M : NULL;
    char *r = str_replace_ex(DEF, null == 1 ? NULL : gh, null == 2 ? NULL : gd, null == 3 ? NULL : gx);
    CHECK(gh[a] == v && gx[gb] == xb, "the inputs are not modified");
    if (null >= 1 && null <= 3) { CHECK(r == NULL && nalloc == 0, "null for a null argument"); REACH("null"); return; }
    if (C(K) == 0) { CHECK(r == NULL && nalloc == 0, "null when the pattern does not occur"); CHECK(!occ, "no step is an occurrence"); if (n > 3) REACH("none"); return; }
    CHECK(r == out && r != NULL && nalloc == 1, "the block is returned");
    CHECK(r[O(K)] == 0, "the result is terminated at its end");
    if (occ && gb < w) CHECK(r[O(gk) + gb] == xb, "every occurrence is replaced");
    if (!occ) CHECK(r[O(gk)] == v, "every other byte is kept");
    if (occ && w > d && gk > 3) REACH("longer"); if (occ && w == 0) REACH("empty"); if (!occ && C(gk) > 2) REACH("kept");
}
