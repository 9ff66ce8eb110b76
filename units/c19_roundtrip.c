/*@vc
prop C19
src swar.c
func str_decode64_ex
stub simd_strlen calloc_full
nloops str_decode64_ex 2
loop str_decode64_ex 0
 havoc i count
 begin inst(i);
 inv i <= gn && len == gn && count == i
 dec (long)(len - i)
loop str_decode64_ex 1
 pre g = 0;
 havoc i count pad g
 ptr pos=out
 obj out block
 begin inst(i);
 step if (i == 4 * g + 4) g++;
 inv i <= gn && SAME(pos, out) && count < 4 && i == 4 * g + count && OFF(pos) == 3 * g
 inv pad >= 0 && pad == ((i > 0 && i + 1 == gn && on % 3 == 1) ? 1 : 0)
 inv count < 1 || block[0] == dec(src[4 * g])
 inv count < 2 || block[1] == dec(src[4 * g + 1])
 inv count < 3 || block[2] == dec(src[4 * g + 2])
 inv gk >= 3 * g || gk >= on || out[gk] == org[gk]
 inv i < gn || on % 3 == 0
 dec (long)(len - i)
unwind 2
timeout 600
doc str_decode64_ex on the standard encoding (the postcondition of str_encode64_ex, unit c18_encode) of every non-empty string: byte gk (arbitrary) of the result is byte gk of the string, and it is terminated at its length
assume string length below 2^30
@*/
#include "vc.h"
#include "raii.h"
static size_t gk, gn, on, g; static unsigned char *gs, *go, *org; static size_t gsz; static memory_t *gm;
#define T(i) ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[i])
#define B_(s,n,i) ((i) < (n) ? (unsigned)(s)[i] : 0u)
#define W_(s,n,g) ((B_(s,n,3*(g)) << 16) | (B_(s,n,3*(g)+1) << 8) | B_(s,n,3*(g)+2))
#define grp_ok(s,n,o,g) (3*(g) >= (n) || ((o)[4*(g)] == T(W_(s,n,g) >> 18) && (o)[4*(g)+1] == T((W_(s,n,g) >> 12) & 63) \
    && (o)[4*(g)+2] == (3*(g)+1 < (n) ? T((W_(s,n,g) >> 6) & 63) : '=') && (o)[4*(g)+3] == (3*(g)+2 < (n) ? T(W_(s,n,g) & 63) : '=')))
static unsigned char dec(unsigned char c)
{
    return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52
        : c == '+' ? 62 : c == '/' ? 63 : 0;
}
/* the precondition "src is the encoding of org", at the group of index i */
static void inst(size_t i) { if (i < gn) { size_t q = i / 4; ASSUME(grp_ok(org, on, gs, q)); } }
size_t simd_strlen(const char *s)
{ CHECK((unsigned char *)s == gs, "simd_strlen precondition: the argument string"); return gn; }
void *calloc_full(memory_t *m, int count, size_t size, func_t f)
{
    CHECK(m == gm && f == (func_t)vc_free && count == 1 && go == NULL, "one block of the scope");
    gsz = size; go = vc_new(size, 1); ASSUME(go != NULL); return go;
}
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    memory_t m; gm = &m;
    on = nd_size(); gk = nd_size(); ASSUME(on > 0 && on < 0x40000000 && gk < on);
    gn = (on + 2) / 3 * 4;
    org = vc_new(on, 0); gs = vc_new(gn + 1, 0); ASSUME(org != NULL && gs != NULL && gs[gn] == 0);
    vc_reg(gs, gn + 1); vc_reg(org, on);
    u_string r = str_decode64_ex(&m, gs);
    CHECK(r != NULL && r == go, "a well-formed text is accepted");
    CHECK(r[gk] == org[gk], "every byte is recovered");
    CHECK(r[on] == 0, "the result is terminated at the length of the string");
    REACH("decoded");
    if (on > 100 && on % 3 == 1) REACH("two paddings");
}
