/*@vc
prop C27
src catomic.h
func c89atomic_fetch_add_explicit_f32 c89atomic_fetch_add_explicit_f64 c89atomic_fetch_sub_explicit_f32 c89atomic_fetch_sub_explicit_f64
subst c89atomic_fetch_add_explicit_f32 ~c89atomic_(load|compare_exchange_weak)_explicit_32~va_\1_32~
subst c89atomic_fetch_sub_explicit_f32 ~c89atomic_(load|compare_exchange_weak)_explicit_32~va_\1_32~
subst c89atomic_fetch_add_explicit_f64 ~c89atomic_(load|compare_exchange_weak)_explicit_64~va_\1_64~
subst c89atomic_fetch_sub_explicit_f64 ~c89atomic_(load|compare_exchange_weak)_explicit_64~va_\1_64~
loop c89atomic_fetch_add_explicit_f32 0
 inv done == 0
 havoc r.i x.i cell
 nodec
loop c89atomic_fetch_sub_explicit_f32 0
 inv done == 0
 havoc r.i x.i cell
 nodec
loop c89atomic_fetch_add_explicit_f64 0
 inv done == 0
 havoc r.i x.i cell
 nodec
loop c89atomic_fetch_sub_explicit_f64 0
 inv done == 0
 havoc r.i x.i cell
 nodec
solver z3
flag --fpa
cases K 0 3
unwind 2
doc addition and subtraction of float and double: one indivisible exchange of the value found for that value plus (minus) the argument, whatever other threads store meanwhile; the value found is given back
assume the load and compare-exchange builtins are indivisible (contract points, the value may change before each); a weak compare-exchange may fail at any time; that the loop ends depends on the other threads
@*/
#include "vc.h"
#include <stdbool.h>
#include <stdint.h>
static uint64_t cell, was, now; static int done; static volatile void *P;
uint32_t va_load_32(volatile const void *p, int order); uint64_t va_load_64(volatile const void *p, int order);
bool va_compare_exchange_weak_32(volatile void *p, uint32_t *e, uint32_t d, int s, int f); bool va_compare_exchange_weak_64(volatile void *p, unsigned long long *e, uint64_t d, int s, int f);
#include "vc_loops.h"
#include "src_catomic.h"
static void others(void) { if (nd_bool() && !done) cell = nd_u64(); }
uint32_t va_load_32(volatile const void *p, int o) { CHECK(p == P, "the object"); others(); return (uint32_t)cell; }
uint64_t va_load_64(volatile const void *p, int o) { CHECK(p == P, "the object"); others(); return cell; }
static void sum(uint64_t e, uint64_t d);
static int ord; static int got;
bool va_compare_exchange_weak_64(volatile void *p, unsigned long long *e, uint64_t d, int s, int f)
{
    CHECK(p == P && !done, "one exchange of the object"); others(); got = s;
    if (cell != *e) { *e = cell; return 0; }
    if (nd_bool()) return 0;
    sum(*e, d); was = *e; cell = now = d; done++; return 1;
}
bool va_compare_exchange_weak_32(volatile void *p, uint32_t *e, uint32_t d, int s, int f)
{
    CHECK(p == P && !done, "one exchange of the object"); others(); got = s;
    if ((uint32_t)cell != *e) { *e = (uint32_t)cell; return 0; }
    if (nd_bool()) return 0;
    sum(*e, d); was = *e; cell = now = d; done++; return 1;
}
#if K < 2
typedef float T; typedef uint32_t B;
#else
typedef double T; typedef uint64_t B;
#endif
static T obj, S;
static T of(B b) { union { B b; T t; } u; u.b = b; return u.t; }
static B bits(T t) { union { B b; T t; } u; u.t = t; return u.b; }
static void sum(uint64_t e, uint64_t d)
{
    T o = of((B)e), n = of((B)d), w = K % 2 ? o - S : o + S;
    CHECK(n == w || (n != n && w != w), "the new value is the sum, or difference, of the old one");
}
void harness(void)
{
    T src = of((B)nd_u64()), r; cell = nd_u64(); P = &obj; S = src; ord = (int)(nd_u32() % 6);
#if K == 0
    r = c89atomic_fetch_add_explicit_f32(&obj, src, ord);
#elif K == 1
    r = c89atomic_fetch_sub_explicit_f32(&obj, src, ord);
#elif K == 2
    r = c89atomic_fetch_add_explicit_f64(&obj, src, ord);
#else
    r = c89atomic_fetch_sub_explicit_f64(&obj, src, ord);
#endif
    CHECK(done == 1, "exactly one exchange"); CHECK(got == memory_order_seq_cst || got == ord || ord == memory_order_relaxed || (got == memory_order_acq_rel && ord != memory_order_seq_cst) || (got == memory_order_acquire && ord == memory_order_consume), "with the memory order asked for"); REACH("done");
    T o = of((B)was);
    CHECK(bits(r) == (B)was || (r != r && o != o), "the old value is given back");
}
