/*@vc
prop C15
src swar.c
func str_split_ex str_copy
stub simd_strlen is_str_eq is_empty calloc_full try_calloc
nloops str_split_ex 2
loop str_split_ex 0
 ptr _s=gs
 havoc nbWords
 inv SAME(_s, gs) && nbWords >= 1 && nbWords <= N && OFF(_s) == T(nbWords - 1)
 begin AXIOM(nbWords - 1)
 dec (long)(N - nbWords)
loop str_split_ex 1
 pre k = 0;
 ptr _s=data ptrs=data
 obj data
 havoc k
 inv k < N && SAME(_s, data) && SAME(ptrs, data) && OFF(_s) == psz + T(k) && OFF(ptrs) == 8 * k
 inv gb >= T(k) ==> ((char *)data)[psz + gb] == gs[gb]
 inv T(gk) <= gb && gb < E(gk) ==> ((char *)data)[psz + gb] == gs[gb]
 inv gk < k ==> ((char *)data)[psz + E(gk)] == 0
 inv gk <= k ==> ((char **)data)[gk] == (char *)data + (psz + T(gk))
 inv ((char *)data)[psz + n] == 0
 begin AXIOM(k)
 step k++;
 dec (long)(N - k)
cases SCOPED 0 1
unwind 2
timeout 800
doc str_split_ex on any non-empty string (below 2^40 bytes) and any non-empty delimiter or none, with N pieces (N below 2^31): the list is N pointers and a null, the count is N, piece gk (arbitrary) starts at T(gk), holds the bytes of the string up to the next occurrence of the delimiter (byte gb arbitrary) and is terminated there; every write is inside the one block; the input is unchanged. T(i), E(i): start and end of piece i by their defining equations over strstr and the order lemma c15_lemma
assume strstr returns the first occurrence, calloc_full/try_calloc return zeroed blocks (c03_alloc, c03_try); fewer than 2^31 pieces
@*/
#include "vc.h"
#include "raii.h"
#define NONE ((size_t)-1)
static memory_t M, *DEF; static char *gs, *gd, *out; static size_t n, d, N, gk, gb, k, psz; static int nalloc; static bool nodelim;
size_t __CPROVER_uninterpreted_next(size_t);
size_t __CPROVER_uninterpreted_start(size_t);
#define NX(p) __CPROVER_uninterpreted_next((size_t)(p))
#define T(i) __CPROVER_uninterpreted_start((size_t)(i))
#define E(i) ((size_t)(i) + 1 == N ? n : NX(T(i)))
/* piece i < N: begins at T(i); all but the last end where the delimiter occurs next, the following piece starts behind it */
#define DEFN(i) ((size_t)(i) + 1 == N ? T(i) <= n && NX(T(i)) == NONE : T(i) <= NX(T(i)) && NX(T(i)) < n && NX(T(i)) + d <= n && T((size_t)(i) + 1) == NX(T(i)) + d)
#define AXIOM(i) { ASSUME(DEFN(i)); if ((size_t)(i) < gk && gk < N) ASSUME(E(i) + d <= T(gk)); if ((size_t)(i) > gk) ASSUME(E(gk) + d <= T(i)); }
size_t simd_strlen(const char *s)
{
    if (s == gs) return n;
    if (nodelim && s != gd) { CHECK(s[0] == ' ' && s[1] == 0, "the default delimiter is one space"); gd = (char *)s; }
    CHECK(s == gd, "length of the string or of the delimiter"); return d;
}
bool is_str_eq(const char *a, const char *b) { CHECK(a == gs && b[0] == 0, "the string is compared with the empty one"); return n == 0; }
bool is_empty(void *p) { return p == NULL; }
char *vcm_strstr(const char *h, const char *x)
{
    if (nodelim && x != gd) { CHECK(x[0] == ' ' && x[1] == 0, "the default delimiter is one space"); gd = (char *)x; }
    CHECK(x == gd, "the delimiter is searched");
    size_t p = OFF(h);
    if (!SAME(h, gs)) {
        CHECK(out && SAME(h, out) && p >= psz, "searched in the string or in its copy"); p -= psz;
        CHECK(p <= n && (gb < p || out[psz + gb] == gs[gb]), "the copy from here on is the string from here on"); CHECK(out[psz + n] == 0, "the copy is terminated");
    }
    CHECK(p <= n, "inside the string");
    size_t r = NX(p); if (r == NONE) return NULL;
    ASSUME(p <= r && r <= n && r + d <= n); return (char *)h + (r - p);
}
static void *new_block(size_t size)
{
    CHECK(nalloc == 0, "one block"); nalloc++; psz = 8 * (N + 1); ASSUME(size < ((size_t)1 << 50));
    CHECK(size >= psz + n + 1, "the block has room for the list and the text");
    if (nd_bool()) ASSUME(0);   /* panics */
    out = vc_new(size, 1); ASSUME(out != NULL); return out;
}
void *calloc_full(memory_t *m, int c, size_t size, func_t f) { CHECK(m == DEF && m && c == 1 && f == (func_t)vc_free, "a block of the scope"); return new_block(size); }
void *try_calloc(int c, size_t size) { CHECK(!DEF && c == 1, "a block without scope"); return new_block(size); }
void *vcm_cpy(void *dst, const void *s, size_t len)
{
    CHECK(s == gs && len <= n + 1 && SAME(dst, out) && OFF(dst) + len <= OBJSZ(out), "the string is copied into the block");
    size_t o = OFF(dst), w = psz + gb;
    if (w >= o && w < o + len) out[w] = gs[w - o];
    w = psz + E(gk); if (w >= o && w < o + len) out[w] = gs[w - o];
    w = psz + n; if (w >= o && w < o + len) out[w] = gs[w - o];
    return dst;
}
#undef memcpy
#define memcpy vcm_cpy
#undef strstr
#define strstr vcm_strstr
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    n = nd_size(); d = nd_size(); N = nd_size(); gk = nd_size(); gb = nd_size(); nodelim = nd_bool();
    ASSUME(n < ((size_t)1 << 40) && d >= 1 && d < ((size_t)1 << 40) && N >= 1 && N < 0x7fffffff && gk < N && gb <= n);
    if (nodelim) d = 1;
    gs = vc_new(n + 1, 0); gd = nodelim ? NULL : vc_new(d + 1, 0); ASSUME(gs != NULL && (nodelim || gd != NULL));
    ASSUME(gs[n] == 0 && (gb == n || gs[gb] != 0)); if (gd) ASSUME(gd[d] == 0);
    vc_reg(gs, n + 1); if (gd) vc_reg(gd, d + 1);
    char v = gs[gb];
    ASSUME(T(0) == 0); AXIOM(gk) AXIOM(0)
    DEF = SCOPED ? &M : NULL; int cnt = -7, *cp = nd_bool() ? &cnt : NULL;
    char **r = str_split_ex(DEF, gs, nodelim ? NULL : gd, cp);
    CHECK(gs[gb] == v, "the input is not modified");
    if (n == 0) { CHECK(r == NULL && nalloc == 0, "nothing for the empty string"); REACH("empty"); return; }
    CHECK((void *)r == (void *)out && r != NULL, "the block is returned");
    CHECK(cnt == (cp ? (int)N : -7), "the count is the number of pieces");
    CHECK(r[N] == NULL, "the list ends with a null pointer");
    CHECK(SAME(r[gk], out) && OFF(r[gk]) == psz + T(gk), "every entry of the list points to its piece");
    size_t e = E(gk);
    if (T(gk) <= gb && gb < e) CHECK(r[gk][gb - T(gk)] == v, "every byte of every piece is that of the string");
    CHECK(r[gk][e - T(gk)] == 0, "every piece ends where the delimiter begins, or with the string");
    REACH("split");
    if (N > 100 && gk > 10 && gk < N - 1 && e > T(gk) + 5) REACH("many pieces");
}
