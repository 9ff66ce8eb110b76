/*@vc
prop C19
src swar.c
func is_base64
stub simd_strlen
nloops is_base64 1
loop is_base64 0
 havoc i
 inv i <= gn && len == gn
 inv gk < i ==> alpha(src[gk])
 begin if (ALL && i < gn) ASSUME(alpha(src[i]));
 dec (long)(len - i)
unwind 2
cases ALL 0 1
doc is_base64 on any string: true implies byte gk (arbitrary) is in the alphabet or padding; a string of such bytes only (ALL) gives true
@*/
#include "vc.h"
#include "raii.h"
static size_t gk, gn; static unsigned char *gs;
static bool alpha(unsigned char c)
{ return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/' || c == '='; }
size_t simd_strlen(const char *s)
{ CHECK((unsigned char *)s == gs, "simd_strlen precondition: the argument string"); return gn; }
#include "vc_loops.h"
#include "src_swar.c"
void harness(void)
{
    gk = nd_size(); gn = nd_size();
    ASSUME(gn < ((size_t)1 << 40));
    gs = vc_new(gn + 1, 0); ASSUME(gs != NULL && gs[gn] == 0);
    vc_reg(gs, gn + 1);
    bool r = is_base64(gs);
    if (ALL) CHECK(r, "a Base64 text is accepted");
    if (r) { CHECK(gk >= gn || alpha(gs[gk]), "accepted only if every byte is in the alphabet"); REACH("accepted"); }
    if (r && gn > 100) REACH("long");
}
