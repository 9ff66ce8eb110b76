/*@vc
prop C06 C08
src except.c
func ex_unwind_set ex_data_set ex_data_get ex_swap_set ex_swap_reset ex_flags_reset ex_uncaught_exception
stub ex_init
unwind 2
doc the accessors of a context: ex_swap_set makes the given owner current and keeps the previous one, which ex_swap_reset restores; ex_unwind_set and ex_data_set change exactly their field; ex_flags_reset forgets signals
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
#include "src_except.c"
static ex_context_t C; ex_context_t *ex_init(void) { return &C; }
bool is_empty(void *p) { return p == NULL; }
#define SAMEREST (C.ex == o.ex && C.panic == o.panic && C.state == o.state && C.next == o.next && C.stack == o.stack && C.is_raii == o.is_raii && C.is_guarded == o.is_guarded && C.unstack == o.unstack && C.caught == o.caught && C.type == o.type)
void harness(void)
{
    C.data = (void *)nd_size(); C.prev = (void *)nd_size(); C.is_unwind = nd_bool(); C.ex = (char *)nd_size(); C.panic = (char *)nd_size(); C.state = nd_i32(); C.next = (void *)nd_size(); C.stack = (void *)nd_size(); C.is_raii = nd_bool(); C.is_guarded = nd_bool(); C.unstack = nd_i32(); C.caught = nd_i32(); C.type = nd_i32();
    ex_context_t o = C; void *d = (void *)nd_size(), *e = (void *)nd_size(); bool b = nd_bool();
    ex_swap_set(&C, d); CHECK(C.data == d && C.prev == o.data && C.is_unwind == o.is_unwind && SAMEREST, "the given owner is current, the previous one kept");
    ex_swap_reset(&C); CHECK(C.data == o.data && C.is_unwind == o.is_unwind && SAMEREST, "the previous owner is current again");
    ex_data_set(&C, e); CHECK(C.data == e && ex_data_get(&C, d) == e && C.is_unwind == o.is_unwind && SAMEREST, "the owner");
    ex_unwind_set(&C, b); CHECK(C.is_unwind == b && C.data == e && SAMEREST, "whether memory is released");
    CHECK(ex_uncaught_exception() == o.unstack, "whether it unwinds");
    got_signal = nd_bool(); got_ctrl_c = nd_bool(); ex_flags_reset(); CHECK(!got_signal && !got_ctrl_c && SAMEREST, "signals are forgotten");
    REACH("end");
}
