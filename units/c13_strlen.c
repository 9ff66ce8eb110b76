/*@vc
prop C13
src swar.c
func simd_strlen
nloops simd_strlen 2
loop simd_strlen 1
 ptr longword_ptr=str
 havoc longword
 inv SAME(longword_ptr, str) && OFF(longword_ptr) % 8 == 0 && OFF(longword_ptr) >= OFF(str) && OFF(longword_ptr) <= OFF(str) + z
 inv gk < OFF(longword_ptr) - OFF(str) ==> str[gk] != 0
 dec (long)(OFF(str) + z + 8 - OFF(longword_ptr))
unwind 10
doc simd_strlen on a string of any length at any alignment: s[r] is zero and no byte before it is (gk arbitrary); reads stay in the words the string occupies
assume the words (8 aligned bytes) a string occupies are readable
@*/
#include "vc.h"
#include "raii.h"
static size_t gk, z;
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    size_t off = nd_size(), n = nd_size();
    z = nd_size(); gk = nd_size();
    ASSUME(n < ((size_t)1 << 40) && n % 8 == 0 && off < n && z < n - off);
    char *b = vc_new(n, 0);
    ASSUME(b != NULL && b[off + z] == 0);
    vc_reg(b, n);
    size_t r = simd_strlen(b + off);
    CHECK(r < n - off && b[off + r] == 0, "the byte at the length is zero");
    CHECK(gk >= r || b[off + gk] != 0, "no byte before it is zero");
    REACH("simd_strlen returns");
    if (r > 100) REACH("long string");
}
