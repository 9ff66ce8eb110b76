/*@vc
prop C27
src catomic.h
func c89atomic_compare_and_swap_8 c89atomic_compare_and_swap_16 c89atomic_compare_and_swap_32 c89atomic_compare_and_swap_64
func c89atomic_load_explicit_ptr c89atomic_store_explicit_ptr c89atomic_exchange_explicit_ptr c89atomic_compare_exchange_strong_explicit_ptr c89atomic_compare_exchange_weak_explicit_ptr c89atomic_compare_and_swap_ptr
func c89atomic_store_explicit_f32 c89atomic_load_explicit_f32 c89atomic_exchange_explicit_f32 c89atomic_compare_exchange_strong_explicit_f32 c89atomic_compare_exchange_weak_explicit_f32 c89atomic_fetch_or_explicit_f32 c89atomic_fetch_xor_explicit_f32 c89atomic_fetch_and_explicit_f32 c89atomic_compare_and_swap_f32
func c89atomic_store_explicit_f64 c89atomic_load_explicit_f64 c89atomic_exchange_explicit_f64 c89atomic_compare_exchange_strong_explicit_f64 c89atomic_compare_exchange_weak_explicit_f64 c89atomic_fetch_or_explicit_f64 c89atomic_fetch_xor_explicit_f64 c89atomic_fetch_and_explicit_f64 c89atomic_compare_and_swap_f64
cases K 0 20
unwind 2
noflag --conversion-check --signed-overflow-check
doc K the kind of atomic object (0 to 9: the generic operations; 10 to 20: the operations named after a size or type): the indivisible step an operation makes is sequentially consistent when no memory order is given, and has at least the order given otherwise; a compare-exchange that fails, the order given for failing
assume the atomic builtins of the compiler keep the memory order they are given (the order each is given is recorded)
@*/
#include "vc.h"
static int vs = -1, vl = -1, vf = -1;   /* the order of the last step that may write, of the last that only reads, and of the last failing compare-exchange */
static void va_w(int o) { vs = o; } static void va_l(int o) { vl = o; } static void va_c(int s, int f) { vs = s; vf = f; }
#define __atomic_load_n(p, o)                          (va_l(o), __atomic_load_n(p, o))
#define __atomic_store_n(p, v, o)                      (va_w(o), __atomic_store_n(p, v, o))
#define __atomic_exchange_n(p, v, o)                   (va_w(o), __atomic_exchange_n(p, v, o))
#define __atomic_compare_exchange_n(p, e, d, w, s, f)  (va_c(s, f), __atomic_compare_exchange_n(p, e, d, w, s, f))
#define __atomic_fetch_add(p, v, o)                    (va_w(o), __atomic_fetch_add(p, v, o))
#define __atomic_fetch_sub(p, v, o)                    (va_w(o), __atomic_fetch_sub(p, v, o))
#define __atomic_fetch_or(p, v, o)                     (va_w(o), __atomic_fetch_or(p, v, o))
#define __atomic_fetch_xor(p, v, o)                    (va_w(o), __atomic_fetch_xor(p, v, o))
#define __atomic_fetch_and(p, v, o)                    (va_w(o), __atomic_fetch_and(p, v, o))
#define __atomic_test_and_set(p, o)                    (va_w(o), __atomic_test_and_set(p, o))
#define __atomic_clear(p, o)                           (va_w(o), __atomic_clear(p, o))
#define __atomic_load(p, r, o)                         (va_l(o), __atomic_load(p, r, o))
#define __atomic_store(p, v, o)                        (va_w(o), __atomic_store(p, v, o))
#define __atomic_exchange(p, v, r, o)                  (va_w(o), __atomic_exchange(p, v, r, o))
#define __atomic_compare_exchange(p, e, d, w, s, f)    (va_c(s, f), __atomic_compare_exchange(p, e, d, w, s, f))
#include "vc_loops.h"
#include "src_catomic.h"
#define SC memory_order_seq_cst
static bool has(int got, int want)   /* at least as strong */
{
    return got == SC || (got >= 0 && (got == want || want == memory_order_relaxed || (got == memory_order_acq_rel && want != SC) || (got == memory_order_acquire && want == memory_order_consume)));
}
/* the orders a read, a store, and a failing compare-exchange may be given */
static int rd(int x) { return x == memory_order_release || x == memory_order_acq_rel ? memory_order_acquire : x; }
static int wr(int x) { return x == memory_order_consume || x == memory_order_acquire || x == memory_order_acq_rel ? memory_order_release : x; }
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define READS  do { CHECK(has(vl >= 0 ? vl : vs, want), "a read has the memory order asked for"); REACH("a read"); } while (0)
#define WRITES do { CHECK(has(vs, want), "a store or update has the memory order asked for"); REACH("a store"); } while (0)
#define CAS    do { if (ok) { CHECK(has(vs, want), "a compare-exchange that succeeds has the memory order asked for"); REACH("succeeds"); } else { CHECK(has(vf, fail), "a compare-exchange that fails has the memory order asked for failing"); REACH("fails"); } } while (0)
#if K < 10
#define A0 atomic_bool
#define A1 atomic_schar
#define A2 atomic_uchar
#define A3 atomic_short
#define A4 atomic_ushort
#define A5 atomic_int
#define A6 atomic_uint
#define A7 atomic_size_t
#define A8 atomic_llong
#define A9 atomic_ptr_t
#define V0 uint8_t
#define V1 int8_t
#define V2 uint8_t
#define V3 int16_t
#define V4 uint16_t
#define V5 int32_t
#define V6 uint32_t
#define V7 size_t
#define V8 int64_t
#define V9 void *
typedef CAT(A, K) AT; typedef CAT(V, K) VT;
static AT o;
#define val(x) ((VT)(x))
void harness(void)
{
    unsigned op = nd_u32() % 26; VT b = val((uintptr_t)nd_u64()), e = val((uintptr_t)nd_u64()); int want = SC, fail = SC, x = (int)(nd_u32() % 6), y = (int)(nd_u32() % 6); bool ok;
    atomic_init(&o, val((uintptr_t)nd_u64())); vs = vl = vf = -1;
    switch (op) {
    case 0: (void)atomic_load(&o); READS; break;
    case 1: want = x = rd(x); (void)atomic_load_explicit(&o, x); READS; break;
    case 2: atomic_store(&o, b); WRITES; break;
    case 3: want = x = wr(x); atomic_store_explicit(&o, b, x); WRITES; break;
    case 5: (void)atomic_exchange(&o, b); WRITES; break;
    case 6: want = x; (void)atomic_exchange_explicit(&o, b, x); WRITES; break;
#if K != 9
    case 7: (void)atomic_fetch_add(&o, b); WRITES; break;
    case 8: want = x; (void)atomic_fetch_add_explicit(&o, b, x); WRITES; break;
    case 9: (void)atomic_fetch_sub(&o, b); WRITES; break;
    case 10: want = x; (void)atomic_fetch_sub_explicit(&o, b, x); WRITES; break;
    case 11: (void)atomic_fetch_or(&o, b); WRITES; break;
    case 12: want = x; (void)atomic_fetch_or_explicit(&o, b, x); WRITES; break;
    case 13: (void)atomic_fetch_xor(&o, b); WRITES; break;
    case 14: want = x; (void)atomic_fetch_xor_explicit(&o, b, x); WRITES; break;
    case 15: (void)atomic_fetch_and(&o, b); WRITES; break;
    case 16: want = x; (void)atomic_fetch_and_explicit(&o, b, x); WRITES; break;
#endif
    case 17: ok = atomic_compare_exchange_strong(&o, &e, b); CAS; break;
    case 18: want = x; fail = y = rd(y); ok = atomic_compare_exchange_strong_explicit(&o, &e, b, x, y); CAS; break;
    case 19: ok = atomic_compare_exchange_weak(&o, &e, b); CAS; break;
    case 20: want = x; fail = y = rd(y); ok = atomic_compare_exchange_weak_explicit(&o, &e, b, x, y); CAS; break;
    case 21: (void)atomic_get(VT, &o); READS; break;
    case 23: ok = atomic_swap(&o, &e, b); CAS; break;
#if K == 7 || K == 8
    case 24: ok = atomic_cas(&o, &e, b); CAS; break;
#elif K == 5 || K == 6
    case 24: ok = atomic_cas_32(&o, &e, b); CAS; break;
#endif
    default: break;
    }
}
#else
#define S10 8
#define S11 16
#define S12 32
#define S13 64
#define S14 i8
#define S15 i16
#define S16 i32
#define S17 i64
#define S18 ptr
#define S19 f32
#define S20 f64
#define T10 uint8_t
#define T11 uint16_t
#define T12 uint32_t
#define T13 c89atomic_uint64
#define T14 c89atomic_int8
#define T15 int16_t
#define T16 int32_t
#define T17 c89atomic_int64
#define T18 void *
#define T19 float
#define T20 double
typedef CAT(T, K) T;
#define F(op) CAT(c89atomic_##op##_, CAT(S, K))
static T o;
void harness(void)
{
    unsigned op = nd_u32() % 36; union { uint64_t b; T t; } a, b, e; int want = SC, fail = SC, x = (int)(nd_u32() % 6), y = (int)(nd_u32() % 6); bool ok; T *p = &o, r;
    a.b = nd_u64(); b.b = nd_u64(); e.b = nd_bool() ? a.b : nd_u64(); o = a.t;
    switch (op) {
    case 0: (void)F(load)(p); READS; break;
    case 1: want = x = rd(x); (void)F(load_explicit)(p, x); READS; break;
    case 2: F(store)(p, b.t); WRITES; break;
    case 3: want = x = wr(x); F(store_explicit)(p, b.t, x); WRITES; break;
    case 4: (void)F(exchange)(p, b.t); WRITES; break;
    case 5: want = x; (void)F(exchange_explicit)(p, b.t, x); WRITES; break;
    case 6: ok = F(compare_exchange_strong)(p, &e.t, b.t); CAS; break;
    case 7: ok = F(compare_exchange_weak)(p, &e.t, b.t); CAS; break;
    case 8: want = x; fail = y = rd(y); ok = F(compare_exchange_strong_explicit)(p, &e.t, b.t, x, y); CAS; break;
    case 9: want = x; fail = y = rd(y); ok = F(compare_exchange_weak_explicit)(p, &e.t, b.t, x, y); CAS; break;
#if K != 18
    case 10: (void)F(fetch_or)(p, b.t); WRITES; break;
    case 11: (void)F(fetch_xor)(p, b.t); WRITES; break;
    case 12: (void)F(fetch_and)(p, b.t); WRITES; break;
    case 13: want = x; (void)F(fetch_or_explicit)(p, b.t, x); WRITES; break;
    case 14: want = x; (void)F(fetch_xor_explicit)(p, b.t, x); WRITES; break;
    case 15: want = x; (void)F(fetch_and_explicit)(p, b.t, x); WRITES; break;
#if K < 18
    case 16: (void)F(fetch_add)(p, b.t); WRITES; break;
    case 17: (void)F(fetch_sub)(p, b.t); WRITES; break;
    case 18: want = x; (void)F(fetch_add_explicit)(p, b.t, x); WRITES; break;
    case 19: want = x; (void)F(fetch_sub_explicit)(p, b.t, x); WRITES; break;
    case 20: (void)F(test_and_set)(p); WRITES; break;
    case 21: want = x; (void)F(test_and_set_explicit)(p, x); WRITES; break;
    case 22: F(clear)(p); WRITES; break;
    case 23: want = x = wr(x); F(clear_explicit)(p, x); WRITES; break;
#endif
#endif
    case 24: (void)F(compare_and_swap)(p, e.t, b.t); CHECK(has(vs, SC) && has(vf, SC), "compare-and-swap is sequentially consistent"); REACH("compare and swap"); break;
#if K == 10
    case 25: (void)atomic_flag_test_and_set(p); WRITES; break;
    case 26: want = x; (void)atomic_flag_test_and_set_explicit(p, x); WRITES; break;
    case 27: atomic_flag_clear(p); WRITES; break;
    case 28: want = x = wr(x); atomic_flag_clear_explicit(p, x); WRITES; break;
    case 29: (void)atomic_flag_load(p); READS; break;
    case 30: want = x = rd(x); (void)atomic_flag_load_explicit(p, x); READS; break;
#endif
    default: break;
    }
}
#endif
