/*@vc
prop C27
src catomic.h
cases K 0 9
unwind 2
noflag --conversion-check --signed-overflow-check
doc K the kind of atomic object (bool, char, short, int, long, pointer, ..): every generic operation gives the value the object had, leaves the value stated, and touches no byte beside the object; expected of a compare-exchange is set to the value found when it fails
assume the atomic builtins of the compiler are indivisible (here they are executed by CBMC, one thread)
@*/
#include "vc.h"
#include "vc_loops.h"
#include "src_catomic.h"
#define A0 atomic_bool
#define A1 atomic_schar
#define A2 atomic_uchar
#define A3 atomic_short
#define A4 atomic_ushort
#define A5 atomic_int
#define A6 atomic_uint
#define A7 atomic_size_t
#define A8 atomic_llong
#define A9 atomic_ptr_t
#define V0 uint8_t
#define V1 int8_t
#define V2 uint8_t
#define V3 int16_t
#define V4 uint16_t
#define V5 int32_t
#define V6 uint32_t
#define V7 size_t
#define V8 int64_t
#define V9 void *
#define U0 uint8_t
#define U1 uint8_t
#define U2 uint8_t
#define U3 uint16_t
#define U4 uint16_t
#define U5 uint32_t
#define U6 uint32_t
#define U7 uint64_t
#define U8 uint64_t
#define U9 uint64_t
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
typedef CAT(A, K) AT; typedef CAT(V, K) VT; typedef CAT(U, K) UT;
static struct { uint8_t pre[16]; AT o; uint8_t post[16]; } m;
#define val(x) ((VT)(x))
static UT in(void) { return (UT)nd_u64(); }
void harness(void)
{
    size_t k = nd_u32() % 16; uint8_t p0, p1; unsigned op = nd_u32() % 26; UT a = in(), b = in(), c = in(); bool ok;
    VT e = val(c), r = val(0);
    m.pre[k] = p0 = nd_u8(); m.post[k] = p1 = nd_u8();
    *(UT *)&m.o = a;
    UT want = a; bool got = true;
    REACH("an operation");
    switch (op) {
    case 0: r = atomic_load(&m.o); break;
    case 1: r = atomic_load_explicit(&m.o, memory_order_acquire); break;
    case 2: atomic_store(&m.o, val(b)); want = b; got = false; break;
    case 3: atomic_store_explicit(&m.o, val(b), memory_order_release); want = b; got = false; break;
    case 4: atomic_init(&m.o, val(b)); want = b; got = false; break;
    case 5: r = atomic_exchange(&m.o, val(b)); want = b; break;
    case 6: r = atomic_exchange_explicit(&m.o, val(b), memory_order_relaxed); want = b; break;
#if K != 9
    case 7: r = atomic_fetch_add(&m.o, val(b)); want = (UT)(a + b); break;
    case 8: r = atomic_fetch_add_explicit(&m.o, val(b), memory_order_relaxed); want = (UT)(a + b); break;
    case 9: r = atomic_fetch_sub(&m.o, val(b)); want = (UT)(a - b); break;
    case 10: r = atomic_fetch_sub_explicit(&m.o, val(b), memory_order_relaxed); want = (UT)(a - b); break;
    case 11: r = atomic_fetch_or(&m.o, val(b)); want = a | b; break;
    case 12: r = atomic_fetch_or_explicit(&m.o, val(b), memory_order_relaxed); want = a | b; break;
    case 13: r = atomic_fetch_xor(&m.o, val(b)); want = a ^ b; break;
    case 14: r = atomic_fetch_xor_explicit(&m.o, val(b), memory_order_relaxed); want = a ^ b; break;
    case 15: r = atomic_fetch_and(&m.o, val(b)); want = a & b; break;
    case 16: r = atomic_fetch_and_explicit(&m.o, val(b), memory_order_relaxed); want = a & b; break;
    case 22: { long long w = (long long)atomic_load(&m.o); CHECK(w == (long long)(VT)a, "the value read keeps its sign when it is widened"); got = false; break; }
#endif
    case 17: ok = atomic_compare_exchange_strong(&m.o, &e, val(b)); goto cas;
    case 18: ok = atomic_compare_exchange_strong_explicit(&m.o, &e, val(b), memory_order_seq_cst, memory_order_relaxed); goto cas;
    case 23: ok = atomic_swap(&m.o, &e, val(b)); goto cas;
#if K == 7 || K == 8
    case 24: ok = atomic_cas(&m.o, &e, val(b)); goto cas;
#elif K == 5 || K == 6
    case 24: ok = atomic_cas_32(&m.o, &e, val(b)); goto cas;
#endif
    case 19: ok = atomic_compare_exchange_weak(&m.o, &e, val(b)); goto weak;
    case 20: ok = atomic_compare_exchange_weak_explicit(&m.o, &e, val(b), memory_order_seq_cst, memory_order_relaxed); goto weak;
    case 21: r = atomic_get(VT, &m.o); break;
    default: got = false; break;
    cas:
        CHECK(ok == (a == c), "a compare-exchange succeeds exactly when the value is the expected one"); REACH("compare-exchange");
    weak:
        CHECK(!ok || a == c, "a compare-exchange succeeds only when the value is the expected one");
        CHECK((UT)e == (ok ? c : a), "expected is the value found"); want = ok ? b : a; got = false; break;
    }
    if (got) CHECK((UT)r == a, "the operation gives the value the object had");
    CHECK(*(UT *)&m.o == want, "the object has the new value");
    CHECK(m.pre[k] == p0 && m.post[k] == p1, "no byte beside the object changes");
}
