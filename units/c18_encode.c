/*@vc
prop C18
src swar.c
func str_encode64_ex str_base64_len
stub simd_strlen calloc_full
nloops str_encode64_ex 1
loop str_encode64_ex 0
 pre g = 0;
 ptr begin=src pos=out
 obj out
 havoc g
 step g++;
 inv SAME(begin, src) && SAME(pos, out)
 inv OFF(begin) <= gn && g <= gn / 3 && OFF(begin) == 3 * g && OFF(pos) == 4 * g
 inv gk < g ==> grp_ok(src, gn, out, gk)
 dec end - begin
unwind 2
timeout 600
doc str_encode64_ex on every string of n < 2^40 bytes (rejected when 4n/3+3 does not fit 32 bits): group gk of the result is the standard encoding of bytes 3gk..3gk+2 with padding (gk arbitrary), terminated at 4*ceil(n/3), every write inside the allocated block, input unchanged
assume string length below 2^40
@*/
#include "vc.h"
#include "raii.h"
static size_t gk, gn, g; static unsigned char *gs, *go; static size_t gsz; static memory_t *gm;
size_t simd_strlen(const char *s)
{ CHECK((const unsigned char *)s == gs, "simd_strlen precondition: the argument string"); return gn; }
void *calloc_full(memory_t *m, int count, size_t size, func_t f)
{
    CHECK(m == gm, "the block is bound to the scope given"); CHECK(f == (func_t)vc_free, "the block is released by the allocator's free");
    CHECK(count == 1, "one block"); CHECK(go == NULL, "one block is allocated");
    gsz = size; go = vc_new(size, 1); ASSUME(go != NULL); return go;
}
#define T(i) ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[i])
#define B_(s,n,i) ((i) < (n) ? (unsigned)(s)[i] : 0u)
#define W_(s,n,g) ((B_(s,n,3*(g)) << 16) | (B_(s,n,3*(g)+1) << 8) | B_(s,n,3*(g)+2))
#define grp_ok(s,n,o,g) (3*(g) >= (n) || ((o)[4*(g)] == T(W_(s,n,g) >> 18) && (o)[4*(g)+1] == T((W_(s,n,g) >> 12) & 63) \
    && (o)[4*(g)+2] == (3*(g)+1 < (n) ? T((W_(s,n,g) >> 6) & 63) : '=') && (o)[4*(g)+3] == (3*(g)+2 < (n) ? T(W_(s,n,g) & 63) : '=')))
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    memory_t m; gm = &m;
    gk = nd_size(); gn = nd_size();
    ASSUME(gn < ((size_t)1 << 40) && gk < gn);
    bool none = nd_bool(); if (none) gn = 0;
    gs = vc_new(gn + 1, 0); ASSUME(gs != NULL && gs[gn] == 0);
    size_t w = nd_size(); ASSUME(w <= gn); unsigned char wv = gs[w];
    vc_reg(gs, gn + 1);
    u_string r = str_encode64_ex(&m, gs);
    if ((gn * 4 / 3 + 3) >> 32) { CHECK(r == NULL && go == NULL, "a string too long for the result size is rejected"); REACH("too long"); return; }
    CHECK(r != NULL && r == go, "the allocated block is returned");
    CHECK(r[(gn + 2) / 3 * 4] == 0, "terminated after the padded groups");
    CHECK(grp_ok(gs, gn, r, gk), "every group is the standard encoding");
    CHECK(gs[w] == wv, "the input is not modified");
    REACH("encoded");
    if (gn > 100 && gn % 3 == 1) REACH("one byte left");
    if (gn > 100 && gn % 3 == 2) REACH("two bytes left");
}
