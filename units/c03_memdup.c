/*@vc
prop C03
src swar.c
func str_memdup_ex str_copy
stub calloc_full simd_strlen
noflag --signed-overflow-check
unwind 2
doc duplicating n < 2^40 bytes into a scope: a block of n + 1 bytes owned by the scope holding the same bytes (byte g arbitrary) followed by zero, the source unchanged;
\ str_copy copies the given number of bytes, or the whole string for length 0, and nothing else
assume memcpy copies exactly its n bytes
@*/
#include "vc.h"
#include "raii.h"
static memory_t M; static unsigned char *src, *out; static size_t osz, g, n; static int nc;
void *vcm_cpy(void *d, const void *s, size_t k)
{
    CHECK(k == 0 || (OFF(d) + k <= OBJSZ(d) && OFF(s) + k <= OBJSZ(s)), "memcpy stays inside its blocks"); CHECK(!SAME(d, s), "no overlap");
    nc++; CHECK(nc == 1 && s == src && d == out, "copies from the source to the block"); CHECK(k <= osz, "fits");
    if (g < k) ((unsigned char *)d)[g] = ((unsigned char *)s)[g];
    return d;
}
void *calloc_full(memory_t *m, int count, size_t size, func_t f)
{ CHECK(m == &M && count == 1 && f == (func_t)vc_free && out == NULL, "one block owned by the scope"); osz = size; out = vc_new(size, 1); ASSUME(out != NULL); return out; }
size_t simd_strlen(const char *s) { CHECK((unsigned char *)s == src, "length of the source"); return n; }
#undef memcpy
#define memcpy vcm_cpy
#include "src_swar.c"
void harness(void)
{
    n = nd_size(); g = nd_size(); ASSUME(n < ((size_t)1 << 40));
    src = vc_new(n + 1, 0); ASSUME(src != NULL); unsigned char sv = 0; if (g < n) sv = src[g];
    int k = nd_i32();
    if (k == 0) {
        unsigned char *r = (unsigned char *)str_memdup_ex(&M, src, n);
        CHECK(r == out && r != NULL && OBJSZ(r) == n + 1, "a block of n + 1 bytes");
        CHECK(g >= n || (r[g] == sv && src[g] == sv), "the same bytes"); CHECK(r[n] == 0, "followed by zero"); CHECK(n == 0 || nc == 1, "copied once");
        REACH("memdup");
    } else if (k == 1) {
        size_t len = nd_size(); ASSUME(len <= n); ASSUME(src[n] == 0);
        osz = n + 1; out = vc_new(n + 1, 1); ASSUME(out != NULL);
        char *r = str_copy((char *)out, (char *)src, len);
        CHECK(r == (char *)out, "the destination is returned"); size_t l = len ? len : n;
        CHECK(g >= n || out[g] == (g < l ? sv : 0), "exactly the bytes asked for are copied"); REACH("str_copy");
    }
}
