/*@vc
prop C17
src swar.c
func str_concat_ex str_copy
stub simd_strlen try_calloc raii_deferred ex_throw
nloops str_concat_ex 2
loop str_concat_ex 0
 havoc i strsize ap cur
 inv i >= 0 && (size_t)i <= N && ap.pos == (size_t)i && ap.live && strsize == P(i)
 pre cur = 0;
 begin AXIOM(i)
 dec (long)N - i
loop str_concat_ex 1
 havoc i strsize ap cur
 obj res
 inv i >= 0 && (size_t)i <= N && ap.pos == (size_t)i && ap.live && strsize == P(i) && res == out
 inv (size_t)i > gk && gb < LEN(gk) ==> res[P(gk) + gb] == gs[gb]
 inv res[P(N)] == 0
 begin AXIOM(i)
 dec (long)N - i
unwind 2
timeout 600
doc str_concat_ex on any number of strings of any lengths (total below 2^40), any scope or none: the result has exactly the size of all strings plus one, byte gb of string gk (both arbitrary) is at the sum of the lengths before it, terminated; it is registered for release by the given scope exactly once, if that fails it is freed exactly once and panic is thrown; P(i), the sum of the first i lengths, by its defining equations and the monotonicity lemma c17_lemma
assume va_arg yields the arguments in order; memcpy copies exactly its bytes
@*/
#include "vc.h"
#include "vc_va.h"
#include "raii.h"
static memory_t M, *DEF; static char *out, *gs; static size_t N, gk, gb, cur; static int nreg, nfree, nthrow; static bool regfail; static char argobj[1];
size_t __CPROVER_uninterpreted_len(size_t);
size_t __CPROVER_uninterpreted_sum(size_t);
#define LEN(i) __CPROVER_uninterpreted_len((size_t)(i))
#define P(i) __CPROVER_uninterpreted_sum((size_t)(i))
#define TMAX ((size_t)1 << 40)
/* definition of the sum at i, and its order relative to the watched string and the end */
#define AXIOM(i) { if ((size_t)(i) < N) ASSUME(LEN(i) < TMAX && P(i) <= P(N) && P((size_t)(i) + 1) == P(i) + LEN(i) && P((size_t)(i) + 1) <= P(N)); \
    if ((size_t)(i) < gk) ASSUME(P((size_t)(i) + 1) <= P(gk)); if ((size_t)(i) > gk) ASSUME(P(gk) + LEN(gk) <= P(i)); }
static char *cell;
/* string number i is represented by the address (char *)i + 1 in no object, the watched one is a real string */
static void *vc_arg(va_list *ap)
{
    CHECK(ap->live, "the list of arguments is in use"); CHECK(ap->pos < N, "no more arguments are taken than there are");
    cur = ap->pos++;
    cell = cur == gk ? gs : (char *)(((size_t)1 << 44) + cur); return &cell;
}
static size_t number(const char *s)
{
    if (s == gs) return gk;
    size_t i = (size_t)s - ((size_t)1 << 44); CHECK(i < N && i != gk, "a pointer to one of the strings"); return i;
}
size_t simd_strlen(const char *s) { return LEN(number(s)); }
void *try_calloc(int count, size_t size)
{
    CHECK(out == NULL, "one block"); CHECK((size_t)count * size == P(N) + 1, "a block of exactly the total length plus one");
    if (nd_bool()) ASSUME(0);   /* panics, c03_try */
    out = vc_new(size, 1); ASSUME(out != NULL); return out;
}
void *vcm_cpy(void *d, const void *s, size_t k)
{
    CHECK(SAME(d, out) && OFF(d) + k <= OBJSZ(out), "copies into the block");
    size_t i = number(s), o = OFF(d); CHECK(k <= LEN(i), "only the string is read");
    size_t w = P(gk) + gb;
    if (o <= w && w < o + k) out[w] = i == gk && gb < LEN(gk) && w - o < LEN(gk) ? gs[w - o] : (char)nd_u8();
    if (o <= P(N) && P(N) < o + k) out[P(N)] = (char)nd_u8();
    return d;
}
size_t raii_deferred(memory_t *m, func_t f, void *p)
{ CHECK(m == DEF && m && f == (func_t)vc_free && p == out && out && nfree == 0, "the result is registered with the scope, to be freed"); nreg++; regfail = nd_bool(); return regfail ? (size_t)-1 : nd_size() >> 1; }
void vc_free(void *p) { CHECK(p == out && nreg == 1, "only the result is freed, when it cannot be registered"); nfree++; }
void ex_throw(string_t e, string_t f, int l, string_t fn, string_t m, ex_backtrace_t *b)
{ nthrow++; CHECK(nfree == 1 && nreg == 1, "thrown only when the registration failed, after freeing"); REACH("thrown"); ASSUME(0); }
#undef memcpy
#define memcpy vcm_cpy
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    int n = nd_i32(); N = n > 0 ? (size_t)n : 0; gk = nd_size(); gb = nd_size();
    va_list ap; ap.pos = 0; ap.live = true;
    ASSUME(P(0) == 0 && P(N) < TMAX);
    gs = NULL;
    if (gk < N) {
        ASSUME(LEN(gk) < TMAX && P(gk) <= P(N) && P(gk) + LEN(gk) <= P(N));
        gs = vc_new(LEN(gk) + 1, 0); ASSUME(gs != NULL && gs[LEN(gk)] == 0);
    }
    char v = 0; if (gk < N && gb < LEN(gk)) v = gs[gb];
    DEF = nd_bool() ? &M : NULL;
    char *r = str_concat_ex(DEF, n, ap);
    CHECK(!regfail, "a result that cannot be registered is not returned");
    CHECK(r != NULL && r == out && OBJSZ(r) == P(N) + 1, "the block is returned");
    CHECK(r[P(N)] == 0, "terminated after the last string");
    if (gk < N && gb < LEN(gk)) CHECK(r[P(gk) + gb] == v && gs[gb] == v, "every byte of every string is at its place, the inputs are unchanged");
    CHECK(nreg == (DEF != NULL) && nfree == 0 && nthrow == 0, "registered exactly once with the scope given");
    REACH("concatenated");
    if (N > 100 && gk > 50 && gk < N && gb > 10 && gb < LEN(gk)) REACH("many strings");
}
