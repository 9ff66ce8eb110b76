/*@vc
prop C27
src catomic.h
func c89atomic_compare_and_swap_8 c89atomic_compare_and_swap_16 c89atomic_compare_and_swap_32 c89atomic_compare_and_swap_64
func c89atomic_load_explicit_ptr c89atomic_store_explicit_ptr c89atomic_exchange_explicit_ptr c89atomic_compare_exchange_strong_explicit_ptr c89atomic_compare_exchange_weak_explicit_ptr c89atomic_compare_and_swap_ptr
func c89atomic_store_explicit_f32 c89atomic_load_explicit_f32 c89atomic_exchange_explicit_f32 c89atomic_compare_exchange_strong_explicit_f32 c89atomic_compare_exchange_weak_explicit_f32 c89atomic_fetch_or_explicit_f32 c89atomic_fetch_xor_explicit_f32 c89atomic_fetch_and_explicit_f32 c89atomic_compare_and_swap_f32
func c89atomic_store_explicit_f64 c89atomic_load_explicit_f64 c89atomic_exchange_explicit_f64 c89atomic_compare_exchange_strong_explicit_f64 c89atomic_compare_exchange_weak_explicit_f64 c89atomic_fetch_or_explicit_f64 c89atomic_fetch_xor_explicit_f64 c89atomic_fetch_and_explicit_f64 c89atomic_compare_and_swap_f64
cases K 0 10
unwind 2
noflag --conversion-check --signed-overflow-check
doc K the family (8..64 bits unsigned and signed, pointer, float, double): operations named after a size give the old value, leave the value stated, touch no byte beside
assume the atomic builtins of the compiler are indivisible (here they are executed by CBMC, one thread)
@*/
#include "vc.h"
#include "vc_loops.h"
#include "src_catomic.h"
#define C_(a, b) a##b
#define C(a, b) C_(a, b)
#if K == 0
#define SX 8
#elif K == 1
#define SX 16
#elif K == 2
#define SX 32
#elif K == 3
#define SX 64
#elif K == 4
#define SX i8
#elif K == 5
#define SX i16
#elif K == 6
#define SX i32
#elif K == 7
#define SX i64
#elif K == 8
#define SX ptr
#elif K == 9
#define SX f32
#else
#define SX f64
#endif
#define T0 uint8_t
#define T1 uint16_t
#define T2 uint32_t
#define T3 c89atomic_uint64
#define T4 c89atomic_int8
#define T5 int16_t
#define T6 int32_t
#define T7 c89atomic_int64
#define T8 void *
#define T9 float
#define T10 double
#define B0 uint8_t
#define B1 uint16_t
#define B2 uint32_t
#define B3 uint64_t
#define B4 uint8_t
#define B5 uint16_t
#define B6 uint32_t
#define B7 uint64_t
#define B8 uint64_t
#define B9 uint32_t
#define B10 uint64_t
typedef C(T, K) T; typedef C(B, K) B;
#define F(op) C(c89atomic_##op##_, SX)
typedef union { B b; T t; } U;
static struct { uint8_t pre[16]; U o; uint8_t post[16]; } m;
#define SC memory_order_seq_cst
void harness(void)
{
    size_t k = nd_u32() % 16; uint8_t p0, p1; unsigned op = nd_u32() % 20; U a, b, c, r; bool got = true, ok; 
    a.b = (B)nd_u64(); b.b = (B)nd_u64(); c.b = (B)nd_u64(); U e = c; B want = a.b; r.b = 0;
    m.pre[k] = p0 = nd_u8(); m.post[k] = p1 = nd_u8(); m.o = a;
    T *p = &m.o.t;
    REACH("an operation");
    switch (op) {
    case 0: r.t = F(load)(p); break;
    case 1: r.t = F(load_explicit)(p, memory_order_acquire); break;
    case 2: F(store)(p, b.t); want = b.b; got = false; break;
    case 3: F(store_explicit)(p, b.t, memory_order_release); want = b.b; got = false; break;
    case 4: r.t = F(exchange)(p, b.t); want = b.b; break;
    case 5: r.t = F(exchange_explicit)(p, b.t, memory_order_acq_rel); want = b.b; break;
    case 6: ok = F(compare_exchange_strong)(p, &e.t, b.t); goto cas;
    case 7: ok = F(compare_exchange_weak)(p, &e.t, b.t); goto cas;
    case 8: ok = F(compare_exchange_strong_explicit)(p, &e.t, b.t, SC, SC); goto cas;
    case 9: ok = F(compare_exchange_weak_explicit)(p, &e.t, b.t, SC, SC); goto cas;
#if K != 8
    case 10: r.t = F(fetch_or)(p, b.t); want = a.b | b.b; break;
    case 11: r.t = F(fetch_xor)(p, b.t); want = a.b ^ b.b; break;
    case 12: r.t = F(fetch_and)(p, b.t); want = a.b & b.b; break;
#if K < 8
    case 13: r.t = F(fetch_add)(p, b.t); want = (B)(a.b + b.b); break;
    case 14: r.t = F(fetch_sub)(p, b.t); want = (B)(a.b - b.b); break;
    case 15: r.t = F(test_and_set)(p); want = 1; break;
    case 16: F(clear)(p); want = 0; got = false; break;
#endif
#endif
    case 17: r.t = F(compare_and_swap)(p, c.t, b.t); want = a.b == c.b ? b.b : a.b; REACH("compare and swap"); break;
    case 18: ASSUME((uint8_t)a.b <= 1); ok = c89atomic_flag_test_and_set((c89atomic_uint8 *)p); CHECK(ok == ((uint8_t)a.b != 0), "test-and-set gives what the flag was"); ASSUME(sizeof(B) == 1); want = 1; got = false; break;
    case 19: c89atomic_flag_clear((c89atomic_uint8 *)p); want = (B)(a.b & ~(B)0xff); got = false; break;
    default: got = false; break;
    cas:
        CHECK(ok ? a.b == c.b : 1, "succeeds only when the value is the expected one"); CHECK(op == 7 || op == 9 || ok == (a.b == c.b), "succeeds when it is");
        CHECK(e.b == (ok ? c.b : a.b), "expected is the value found"); want = ok ? b.b : a.b; got = false; REACH("compare-exchange"); break;
    }
    if (got && r.t == r.t) CHECK(r.b == a.b, "the operation gives the value the object had");
    CHECK(m.o.b == want, "the object has the new value");
    CHECK(m.pre[k] == p0 && m.post[k] == p1, "no byte beside the object changes");
}
