/*@vc
prop C26
src swar.c
func simd_atod _copySign
stub simd_atoi simd_atou pmemchr
cases ND 0 20
unwind 2
timeout 600
doc text of any length up to 2^31, the first dot (if any, case 20: none) after at most 20 characters, ND digits after it (case 19: any number above 18): the integer part is what is before the dot, the fraction is what is behind it, all of it or its first 18 digits or more; nothing outside the text is read, the table is read inside; without a dot, or with nothing behind it, the value is that of the integer; the sign copy gives the magnitude the sign
assume pmemchr as in C12, simd_atoi and simd_atou as in C09 (replaced by their contracts, which give any integer of that many digits)
@*/
#include "vc.h"
#include "raii.h"
static const char *T, *dotp; static uint32_t L; static int64_t I; static uint64_t F; static int ni, nf; static bool neg;
uint32_t pmemchr(const char *s, uint32_t len, uint8_t c) { CHECK(s == T && len == L && c == '.', "the dot is searched in the whole text"); return dotp ? (uint32_t)(dotp - T) : (uint32_t)-1; }
int64_t simd_atoi(const char *s, uint32_t len) { CHECK(s == T && len == (dotp ? (uint32_t)(dotp - T) : L), "the integer part is what is before the dot"); ni++; return I; }
static const uint64_t PW[20] = { 1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull };
uint64_t simd_atou(const char *s, uint32_t len)
{   /* at most 20 digits; the value has so many */
    CHECK(dotp != NULL && s == dotp + 1 && len <= L - (uint32_t)(s - T) && len <= 20, "the fraction is what is behind the dot"); CHECK(len == L - (uint32_t)(s - T) || len >= 18, "all of it, or 18 digits and more"); nf++; ASSUME(len < 20 ? F < PW[len] : 1); CHECK(nf == 1, "once"); return F;
}
#include "vc_loops.h"
#include "src_swar.c"
#define K18 (ND > 18 ? 18 : ND)
static const double P10[19] = { 1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18 }, M10[19] = { 1e0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11, 1e-12, 1e-13, 1e-14, 1e-15, 1e-16, 1e-17, 1e-18 };
void harness(void)
{
    uint32_t i = nd_u32(), n = ND < 19 ? ND : nd_u32(); ASSUME(i <= 20);
#if ND == 20
    L = nd_u32(); ASSUME(L <= 20);
#else
    ASSUME(ND < 19 || (n > 18 && n < 0x7fffff00u)); L = i + 1 + n;
#endif
    char *s = vc_new(L, 0); ASSUME(s != NULL); T = s; I = nd_i64(); F = nd_u64();
#if ND < 20
    dotp = s + i; s[i] = '.'; neg = i > 0 && s[0] == '-'; ASSUME(neg ? I <= 0 : I >= 0);
#endif
    double r = simd_atod(s, L);
    CHECK(ni == 1, "one integer part");
#if ND == 20
    CHECK(r == (double)I, "without a dot, the integer"); REACH("no dot");
#elif ND == 0
    CHECK(r == (double)I, "nothing behind the dot"); REACH("nothing behind the dot");
#else
    CHECK(nf == 1, "one fraction");
    uint64_t d = nd_u64(); int64_t sg = nd_i64(), q = _copySign(sg, d); if (d <= INT64_MAX) CHECK(sg < 0 ? q == -(int64_t)d : q == (int64_t)d, "the sign is copied");
    REACH("a fraction"); if (neg) REACH("negative");
#endif
}
