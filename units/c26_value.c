/*@vc
prop C26
src swar.c
func simd_atod
stub _copySign simd_atoi simd_atou pmemchr
cases ND 1 19
unwind 2
solver cvc5
flag --fpa
subst simd_atod ~CODE_SECTION~~
subst utoa2p ~CODE_SECTION~~
noflag --pointer-check --bounds-check --signed-overflow-check
timeout 600
doc ND digits behind the dot (case 19: the 18 that are used of more): the value is exactly I + F * 10^-n, in double arithmetic, with I any integer, F any fraction of n digits with the sign of the text, so within 4 roundings (relative 2^-51) of the number
assume _copySign and memory safety as in c26_atod (here one character before the dot, its place does not matter by that contract); pmemchr as in C12, simd_atoi and simd_atou as in C09 (replaced by their contracts, which give any integer of that many digits)
assume rounding of the machine is that of the C arithmetic model of the verifier, IEEE to nearest even (the error bound follows by c26_lemma)
@*/
#include "vc.h"
#include "raii.h"
static const char *T, *dotp; static uint32_t L; static int64_t I; static uint64_t F; static int ni, nf; static bool neg;
uint32_t pmemchr(const char *s, uint32_t len, uint8_t c) { CHECK(s == T && len == L && c == '.', "the dot is searched in the whole text"); return dotp ? (uint32_t)(dotp - T) : (uint32_t)-1; }
int64_t simd_atoi(const char *s, uint32_t len) { CHECK(s == T && len == (dotp ? (uint32_t)(dotp - T) : L), "the integer part is what is before the dot"); ni++; return I; }
static const uint64_t PW[20] = { 1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull };
uint64_t simd_atou(const char *s, uint32_t len)
{   /* at most 20 digits; the value has so many */
    CHECK(dotp != NULL && s == dotp + 1 && len <= L - (uint32_t)(s - T) && len <= 20, "the fraction is what is behind the dot"); CHECK(len == L - (uint32_t)(s - T) || len >= 18, "all of it, or 18 digits and more"); nf++; ASSUME(len < 20 ? F < PW[len] : 1); CHECK(nf == 1, "once"); return F;
}
static int64_t SD; /* the fraction with its sign */
static int64_t _copySign(int64_t src, uint64_t dst) { CHECK(dst == F && (src < 0) == neg, "the fraction gets the sign of the text"); return SD; }
#include "vc_loops.h"
#include "src_swar.c"
#define K18 (ND > 18 ? 18 : ND)
static const double P10[19] = { 1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18 }, M10[19] = { 1.0, 0x1.999999999999ap-4, 0x1.47ae147ae147bp-7, 0x1.0624dd2f1a9fcp-10, 0x1.a36e2eb1c432dp-14, 0x1.4f8b588e368f1p-17, 0x1.0c6f7a0b5ed8dp-20, 0x1.ad7f29abcaf48p-24, 0x1.5798ee2308c3ap-27, 0x1.12e0be826d695p-30, 0x1.b7cdfd9d7bdbbp-34, 0x1.5fd7fe1796495p-37, 0x1.19799812dea11p-40, 0x1.c25c268497682p-44, 0x1.6849b86a12b9bp-47, 0x1.203af9ee75616p-50, 0x1.cd2b297d889bcp-54, 0x1.70ef54646d497p-57, 0x1.2725dd1d243acp-60 }; /* the scales of c26_lemma */
void harness(void)
{
    uint32_t i = 1, n = ND; L = i + 1 + n;
    static char s[64]; T = s; s[0] = (char)nd_u8(); I = nd_i64(); F = nd_u64();
#if ND < 20
    dotp = s + i; s[i] = '.'; neg = s[0] == '-'; ASSUME(neg ? I <= 0 : I >= 0);
#endif
    SD = nd_i64(); ASSUME(F < PW[K18] && SD == (neg ? -(int64_t)F : (int64_t)F));
    REACH("a fraction"); if (neg) REACH("negative");
    double r = simd_atod(s, L);
    CHECK(ni == 1, "one integer part");
#if ND == 20
    CHECK(r == (double)I, "without a dot, the integer"); REACH("no dot");
#elif ND == 0
    CHECK(r == (double)I, "nothing behind the dot"); REACH("nothing behind the dot");
#else
    CHECK(r == (double)I + (double)SD * M10[K18], "integer plus fraction, with one sign, at its scale");
#endif
}
