/*@vc
prop C16
src swar.c
func str_replace_ex
solver z3
unwind 2
doc lemma used by c16_replace: (c + 1) * x is c * x + x in 64-bit arithmetic
@*/
#include "vc.h"
#include "raii.h"
void harness(void) { size_t c = nd_size(), x = nd_size(); CHECK((c + 1) * x == c * x + x, "one more occurrence"); REACH("lemma"); }
