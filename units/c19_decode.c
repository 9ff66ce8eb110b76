/*@vc
prop C19
src swar.c
func str_decode64_ex
stub simd_strlen calloc_full
nloops str_decode64_ex 2
loop str_decode64_ex 0
 havoc i count
 begin inst(i);
 inv i <= gn && len == gn && count == CNT(i)
 dec (long)(len - i)
loop str_decode64_ex 1
 pre g = 0;
 havoc i count pad g gi gcount gpad
 ptr pos=out
 obj out block
 begin inst(i); gi = i; gcount = count; gpad = pad;
 step if (CNT(i) % 4 == 0 && CNT(i) == CNT(i - 1) + 1) g++;
 inv i <= gn && SAME(pos, out) && count < 4
 inv count + 4 * g == CNT(i) && OFF(pos) == 3 * g
 inv pad >= 0 && (size_t)pad == PAD(i) && (size_t)pad <= count
 dec (long)(len - i)
unwind 2
timeout 600
doc str_decode64_ex on every byte string: all accesses inside the input and the allocated block, result size from the number of alphabet characters, null exactly when that number is 0 or not a multiple of 4 or the first padded group has more than two paddings, and the block comes from the scope once
assume CNT(i), PAD(i) (numbers of alphabet characters / of '=' among the first i bytes) are ghost functions with their defining recurrences instantiated where used (bounded and ordered by c19_lemma)
assume string length below 2^40
@*/
#include "vc.h"
#include "raii.h"
static size_t gn, g, gi, gcount; static int gpad; static unsigned char *gs, *go; static size_t gsz; static memory_t *gm;
size_t __CPROVER_uninterpreted_cnt(size_t); size_t __CPROVER_uninterpreted_pad(size_t);
#define CNT(i) __CPROVER_uninterpreted_cnt(i)
#define PAD(i) __CPROVER_uninterpreted_pad(i)
static bool alpha(unsigned char c)
{ return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/' || c == '='; }
static void inst(size_t i)
{
    if (i < gn) {
        ASSUME(CNT(i + 1) == CNT(i) + alpha(gs[i]) && PAD(i + 1) == PAD(i) + (gs[i] == '='));
        ASSUME(CNT(i + 1) <= CNT(gn) && CNT(i) <= i);
    }
}
size_t simd_strlen(const char *s)
{ CHECK((unsigned char *)s == gs, "simd_strlen precondition: the argument string"); return gn; }
void *calloc_full(memory_t *m, int count, size_t size, func_t f)
{
    CHECK(m == gm, "the block is bound to the scope given"); CHECK(f == (func_t)vc_free, "the block is released by the allocator's free");
    CHECK(count == 1, "one block"); CHECK(go == NULL, "one block is allocated");
    gsz = size; go = vc_new(size, 1); ASSUME(go != NULL); return go;
}
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    memory_t m; gm = &m;
    gn = nd_size(); ASSUME(gn < ((size_t)1 << 40));
    gs = vc_new(gn + 1, 0); ASSUME(gs != NULL && gs[gn] == 0);
    ASSUME(CNT(0) == 0 && PAD(0) == 0 && CNT(gn) <= gn);
    size_t w = nd_size(); ASSUME(w <= gn); unsigned char wv = gs[w];
    vc_reg(gs, gn + 1);
    u_string r = str_decode64_ex(&m, gs);
    size_t total = CNT(gn);
    bool toomany = total && total % 4 == 0 && gi < gn && alpha(gs[gi]) && gcount == 3 && gpad + (gs[gi] == '=') >= 3;
    CHECK((r == NULL) == (total == 0 || total % 4 != 0 || toomany), "null exactly for malformed input");
    CHECK(r == NULL || r == go, "the allocated block is returned");
    CHECK(r == NULL || gsz == total / 4 * 3 + 1, "result size");
    CHECK(total != 0 && total % 4 == 0 || go == NULL, "nothing is allocated for malformed input");
    CHECK(gs[w] == wv, "the input is not modified");
    REACH("decoded");
    if (r && total > 100) REACH("long");
    if (toomany) REACH("too much padding");
}
