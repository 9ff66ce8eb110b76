/*@vc
prop C11
src swar.c
func utoa2p utoa2p_ex
unwind 3
replay
doc utoa2p and utoa2p_ex for every value below 100: the two decimal digits, most significant first, nothing else written
@*/
#include "vc.h"
#include "raii.h"
#include "src_swar.c"
void harness(void)
{
    uint64_t x = nd_u64(); char b[4]; uint8_t a = nd_u8(), z = nd_u8();
    ASSUME(x < 100);
    uint16_t r = utoa2p(x);
    CHECK((r & 0xff) == '0' + x / 10 && (r >> 8) == '0' + x % 10, "utoa2p returns the two digits");
    b[0] = (char)a; b[3] = (char)z;
    utoa2p_ex(x, b + 1);
    CHECK(b[1] == '0' + (int)(x / 10) && b[2] == '0' + (int)(x % 10), "utoa2p_ex writes the two digits");
    CHECK((uint8_t)b[0] == a && (uint8_t)b[3] == z, "utoa2p_ex writes nothing else");
    REACH("utoa2p");
}
