/* C08: random programs over blocks, handlers and protected pointers against an oracle */
#include "ex_prog.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n) { p_protect = 1; ex_trial(1); }
