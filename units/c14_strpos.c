/*@vc
prop C14
src swar.c
func strpos
stub simd_strlen
nloops strpos 2
loop strpos 0
 havoc c d e position
 inv c <= text_length - pattern_length + 1
 inv gk < c ==> (w < pl && pattern[w] != text[gk + w])
 step if (c == gk + 1) w = d;
 dec (long)(text_length - pattern_length + 1 - c)
loop strpos 1
 havoc d e
 inv d <= pattern_length && e == c + d
 inv gj < d ==> pattern[gj] == text[c + gj]
 dec (long)(pattern_length - d)
unwind 2
doc strpos on any text and pattern (text shorter than 2^31): the pattern occurs at the result (gj arbitrary), at no smaller offset gk (w is the witness of the mismatch), and -1 only if at no offset at all; nothing outside the strings is read; over the contract of simd_strlen
@*/
#include "vc.h"
#include "raii.h"
static size_t tl, pl, gk, gj, w; static char *T, *P;
size_t simd_strlen(const char *s)
{ CHECK(s == T || s == P, "simd_strlen precondition: one of the strings"); return s == T ? tl : pl; }
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    tl = nd_size(); pl = nd_size(); gk = nd_size(); gj = nd_size(); w = nd_size();
    ASSUME(tl < 0x7fffffff && pl < ((size_t)1 << 40));
    ASSUME(gk <= tl && gj < pl);
    bool empty = nd_bool();
    if (empty) pl = 0;
    T = vc_new(tl + 1, 0); P = vc_new(pl + 1, 0);
    ASSUME(T != NULL && P != NULL);
    vc_reg(T, tl + 1); vc_reg(P, pl + 1);
    ASSUME(T[tl] == 0 && P[pl] == 0);
    int r = strpos(T, P);
    CHECK(r >= -1, "strpos result range");
    if (r >= 0) {
        CHECK(pl <= tl && (size_t)r <= tl - pl, "match lies inside the text");
        CHECK(gj >= pl || P[gj] == T[r + gj], "the pattern occurs at the result");
        CHECK(gk >= (size_t)r || (w < pl && P[w] != T[gk + w]), "no earlier occurrence");
        REACH("found");
        if (r > 100 && pl > 20) REACH("found late");
    } else {
        CHECK(pl > tl || gk > tl - pl || (w < pl && P[w] != T[gk + w]), "-1 only if the pattern occurs nowhere");
        REACH("not found");
    }
}
