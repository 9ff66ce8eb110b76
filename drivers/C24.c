/* C24: type queries */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
void vcd_trial(uint64_t n)
{
    static var_t v; static object_t o; static raii_array_t a; static promise p; static struct args_s g; static ex_ptr_t q; static struct result_data r; static struct _future f; static struct future_pool l; static defer_t d;
    uint32_t t = vcd_below(3) ? (uint32_t)vcd_below(RAII_COUNT + 4) : (uint32_t)vcd_biased(), c = vcd_below(2) ? t : (uint32_t)vcd_below(RAII_COUNT);
    void *k[] = {&v, &o, &a, &p, &g, &q, &r, &f, &l, &d}; void *x = k[vcd_below(10)]; raii_type *tag;
    memset(x, (int)vcd_below(256), sizeof(var_t)); tag = x; *tag = t;
    static var_t w; w.type = c;
    vcd_note("tag %u compared with %u", t, c);
    int val = t >= RAII_INT && t <= RAII_FUNC && RAII_INT == 1 && RAII_NULL == 0, ins = t >= RAII_DEF_ARR && t <= RAII_VALUE;
    VCD_CHECK((uint32_t)type_of(x) == t, "type_of"); VCD_CHECK(is_type(x, c) == (t == c), "is_type"); VCD_CHECK(is_instance_of(x, &w) == (t == c), "is_instance_of");
    VCD_CHECK(is_value(x) == val, "is_value %d", is_value(x)); VCD_CHECK(is_instance(x) == ins, "is_instance %d", is_instance(x)); VCD_CHECK(is_valid(x) == (val || ins), "is_valid");
    unique_t s; memset(&s, (int)vcd_below(256), sizeof s); s.status = vcd_below(2) ? RAII_GUARDED_STATUS : (int)vcd_biased();
    VCD_CHECK(is_guard(&s) == (s.status == RAII_GUARDED_STATUS) && !is_guard(NULL), "is_guard");
    size_t z = vcd_below(3) ? (size_t)vcd_biased() : 0; VCD_CHECK(is_zero(z) == (z == 0), "is_zero(%zu)", z);
    VCD_CHECK(is_empty(NULL) && !is_empty(&v), "is_empty"); VCD_CHECK(is_true(true) && !is_true(false) && is_false(false) && !is_false(true), "truth");
}
