/* VCD_TSAN_DRIVER C27: atomic operations of every kind of object, alone and by several threads; the spin lock */
#include "vcd.h"
#include "raii.h"
#include <pthread.h>
#include <sched.h>
#include <string.h>
int vcd_fork_each = 0;
#define KINDS(X) X(atomic_bool, uint8_t, uint8_t) X(atomic_schar, int8_t, uint8_t) X(atomic_uchar, uint8_t, uint8_t) X(atomic_short, int16_t, uint16_t) X(atomic_ushort, uint16_t, uint16_t) \
    X(atomic_int, int32_t, uint32_t) X(atomic_uint, uint32_t, uint32_t) X(atomic_size_t, size_t, uint64_t) X(atomic_llong, int64_t, uint64_t) X(atomic_ullong, uint64_t, uint64_t)
static void seq_ptr(void)
{
    static struct { uint8_t pre[16]; atomic_ptr_t o; uint8_t post[16]; } m, s; void *a = (void *)vcd_rnd(), *b = (void *)vcd_rnd(), *c = vcd_below(2) ? a : (void *)vcd_rnd(), *e = c, *r = a; bool ok; unsigned op = vcd_below(10); int w = 0;
    vcd_note("atomic_ptr_t op %u", op); memset(&m, (int)vcd_below(256), sizeof m); *(void **)&m.o = a; s = m;
    switch (op) {
    case 0: r = (void *)atomic_load(&m.o); break;
    case 1: atomic_store(&m.o, b); w = 1; break;
    case 2: r = (void *)atomic_exchange(&m.o, b); w = 1; break;
    case 3: ok = atomic_compare_exchange_strong(&m.o, &e, b); goto cas;
    case 4: ok = atomic_swap(&m.o, &e, b); goto cas;
    case 5: r = c89atomic_load_ptr(&m.o); break;
    case 6: c89atomic_store_ptr(&m.o, b); w = 1; break;
    case 7: r = c89atomic_exchange_ptr(&m.o, b); w = 1; break;
    case 8: ok = c89atomic_compare_exchange_strong_ptr(&m.o, &e, b); goto cas;
    case 9: r = c89atomic_compare_and_swap_ptr((volatile void **)&m.o, c, b); w = a == c; break;
    cas: VCD_CHECK(ok == (a == c) && e == (ok ? c : a), "compare-exchange"); w = ok; break;
    }
    VCD_CHECK(r == a, "the old value"); *(void **)&s.o = w ? b : a; VCD_CHECK(!memcmp(&m, &s, sizeof m), "the new value and nothing else");
}
#define SEQ(A, V, U) static void seq_##A(void) { \
    static struct { uint8_t pre[16]; A o; uint8_t post[16]; } m, s; U a = (U)vcd_biased(), b = (U)vcd_biased(), c = vcd_below(2) ? a : (U)vcd_biased(), want = a; V e = (V)c, r = (V)a; bool ok; unsigned op = vcd_below(26); \
    vcd_note(#A " op %u old %llx arg %llx expected %llx", op, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c); memset(&m, (int)vcd_below(256), sizeof m); *(U *)&m.o = a; memcpy(&s, &m, sizeof m); \
    switch (op) { \
    case 0: r = atomic_load(&m.o); break; \
    case 1: r = atomic_load_explicit(&m.o, memory_order_acquire); break; \
    case 2: atomic_store(&m.o, (V)b); want = b; break; \
    case 3: atomic_store_explicit(&m.o, (V)b, memory_order_release); want = b; break; \
    case 4: atomic_init(&m.o, (V)b); want = b; break; \
    case 5: r = atomic_exchange(&m.o, (V)b); want = b; break; \
    case 6: r = atomic_exchange_explicit(&m.o, (V)b, memory_order_relaxed); want = b; break; \
    case 7: r = atomic_fetch_add(&m.o, (V)b); want = (U)(a + b); break; \
    case 8: r = atomic_fetch_add_explicit(&m.o, (V)b, memory_order_relaxed); want = (U)(a + b); break; \
    case 9: r = atomic_fetch_sub(&m.o, (V)b); want = (U)(a - b); break; \
    case 10: r = atomic_fetch_sub_explicit(&m.o, (V)b, memory_order_relaxed); want = (U)(a - b); break; \
    case 11: r = atomic_fetch_or(&m.o, (V)b); want = a | b; break; \
    case 12: r = atomic_fetch_or_explicit(&m.o, (V)b, memory_order_relaxed); want = a | b; break; \
    case 13: r = atomic_fetch_xor(&m.o, (V)b); want = a ^ b; break; \
    case 14: r = atomic_fetch_xor_explicit(&m.o, (V)b, memory_order_relaxed); want = a ^ b; break; \
    case 15: r = atomic_fetch_and(&m.o, (V)b); want = a & b; break; \
    case 16: r = atomic_fetch_and_explicit(&m.o, (V)b, memory_order_relaxed); want = a & b; break; \
    case 17: ok = atomic_compare_exchange_strong(&m.o, &e, (V)b); goto cas; \
    case 18: ok = atomic_compare_exchange_strong_explicit(&m.o, &e, (V)b, memory_order_seq_cst, memory_order_relaxed); goto cas; \
    case 19: ok = atomic_compare_exchange_weak(&m.o, &e, (V)b); goto weak; \
    case 20: ok = atomic_compare_exchange_weak_explicit(&m.o, &e, (V)b, memory_order_seq_cst, memory_order_relaxed); goto weak; \
    case 21: r = atomic_get(V, &m.o); break; \
    case 22: { long long w = (long long)atomic_load(&m.o); VCD_CHECK(w == (long long)(V)a, "the value read keeps its sign"); break; } \
    case 23: ok = atomic_swap(&m.o, &e, (V)b); goto cas; \
    default: break; \
    cas: VCD_CHECK(ok == (a == c), "a compare-exchange succeeds exactly when the value is the expected one"); \
    weak: VCD_CHECK(!ok || a == c, "a compare-exchange succeeds only on the expected value"); VCD_CHECK((U)e == (ok ? c : a), "expected is the value found"); want = ok ? b : a; break; \
    } \
    VCD_CHECK((U)r == a, "the operation gives the value the object had"); *(U *)&s.o = want; VCD_CHECK(!memcmp(&m, &s, sizeof m), "the object has its new value, and nothing beside it changes"); }
KINDS(SEQ)
/* the operations named after a size */
#define SIZED(X) X(8, uint8_t, uint8_t) X(16, uint16_t, uint16_t) X(32, uint32_t, uint32_t) X(64, c89atomic_uint64, uint64_t) X(i8, c89atomic_int8, uint8_t) X(i16, int16_t, uint16_t) X(i32, int32_t, uint32_t) X(i64, c89atomic_int64, uint64_t)
#define BITS(S, T, B) \
    case 0: r.t = c89atomic_load_##S(p); break; \
    case 1: c89atomic_store_##S(p, b.t); want = b.b; break; \
    case 2: r.t = c89atomic_exchange_##S(p, b.t); want = b.b; break; \
    case 3: ok = c89atomic_compare_exchange_strong_##S(p, &e.t, b.t); VCD_CHECK(ok == (a.b == c.b) && e.b == a.b, "compare-exchange"); if (ok) want = b.b; break; \
    case 4: ok = c89atomic_compare_exchange_weak_##S(p, &e.t, b.t); VCD_CHECK(ok ? a.b == c.b : e.b == a.b, "compare-exchange"); if (ok) want = b.b; break; \
    case 5: r.t = c89atomic_compare_and_swap_##S(p, c.t, b.t); want = a.b == c.b ? b.b : a.b; break; \
    case 6: r.t = c89atomic_fetch_or_##S(p, b.t); want = a.b | b.b; break; \
    case 7: r.t = c89atomic_fetch_xor_##S(p, b.t); want = a.b ^ b.b; break; \
    case 8: r.t = c89atomic_fetch_and_##S(p, b.t); want = a.b & b.b; break;
#define HEAD(S, T, B, n) typedef union { B b; T t; } U; struct { uint8_t pre[16]; U o; uint8_t post[16]; } m, s; U a, b, c, r, e; B want; bool ok; unsigned op = vcd_below(n); T *p = &m.o.t; \
    a.b = (B)vcd_biased(); b.b = (B)vcd_biased(); c.b = vcd_below(2) ? a.b : (B)vcd_biased(); r = a; e = c; want = a.b; memset(&m, (int)vcd_below(256), sizeof m); m.o = a; memcpy(&s, &m, sizeof m); vcd_note("size " #S " op %u old %llx arg %llx expected %llx", op, (unsigned long long)a.b, (unsigned long long)b.b, (unsigned long long)c.b);
#define TAIL VCD_CHECK(r.b == a.b || (r.t != r.t), "the old value"); s.o.b = want; VCD_CHECK(!memcmp(&m, &s, sizeof m), "the object has its new value, and nothing beside it changes");
#define FIXED(S, T, B) static void fix_##S(void) { HEAD(S, T, B, 13) switch (op) { BITS(S, T, B) \
    case 9: r.t = c89atomic_fetch_add_##S(p, b.t); want = (B)(a.b + b.b); break; \
    case 10: r.t = c89atomic_fetch_sub_##S(p, b.t); want = (B)(a.b - b.b); break; \
    case 11: r.t = c89atomic_test_and_set_##S(p); want = 1; break; \
    case 12: c89atomic_clear_##S(p); want = 0; break; } TAIL }
SIZED(FIXED)
#define FLOAT(S, T, B) static void fix_##S(void) { HEAD(S, T, B, 11) U w; w.b = want; if (vcd_below(2)) { a.t = (T)(int64_t)vcd_biased() / 8; b.t = (T)((int64_t)vcd_biased() / 3) / 16; if (vcd_below(2)) c = a; r = a; e = c; want = a.b; m.o = a; s.o = a; } switch (op) { BITS(S, T, B) \
    case 9: r.t = c89atomic_fetch_add_##S(p, b.t); w.t = a.t + b.t; goto sum; \
    case 10: r.t = c89atomic_fetch_sub_##S(p, b.t); w.t = a.t - b.t; goto sum; \
    sum: VCD_CHECK(m.o.t == w.t || (m.o.t != m.o.t && w.t != w.t), "the sum or difference of the values"); want = m.o.b; break; } TAIL }
FLOAT(f32, float, uint32_t) FLOAT(f64, double, uint64_t)
/* several threads */
static struct { atomic_schar a; int8_t na; atomic_ushort b; uint16_t nb; atomic_int c; int32_t nc; atomic_size_t d; uint8_t e[8]; } sh;
static volatile float sf; static volatile double sd; static atomic_spinlock lk; static atomic_flag fl; static volatile long plain, pair[2]; static int inside, torn, rounds; static long entered;
static atomic_bool go; static uint64_t tk[64]; static atomic_size_t taken;
static void *work(void *x)
{
    int i, id = (int)(intptr_t)x; while (!atomic_load(&go)) ;
    for (i = 0; i < rounds; i++) {
        atomic_fetch_add(&sh.a, 1); atomic_fetch_sub(&sh.b, 1); atomic_fetch_add(&sh.c, -1); atomic_fetch_add(&sh.d, (size_t)1 << 33);
        c89atomic_fetch_add_f32(&sf, 1.0f); c89atomic_fetch_sub_f64(&sd, 0.5);
        atomic_lock(&lk); if (inside++) torn++; plain++; pair[0]++; if (pair[0] != pair[1] + 1) torn++; pair[1]++; inside--; atomic_unlock(&lk);
        if (!atomic_flag_test_and_set(&fl)) { c89atomic_fetch_add_i64((c89atomic_int64 *)&entered, 1); atomic_flag_clear(&fl); }
        size_t t = atomic_load(&taken), v; do v = t + (size_t)id; while (!atomic_compare_exchange_weak(&taken, &t, v));
    }
    return NULL;
}
static void threads(void)
{
    pthread_t t[6]; int n = 2 + (int)vcd_below(5), i; rounds = 20 + (int)vcd_below(400); memset(&sh, 0x5a, sizeof sh); sf = 0; sd = 0; memset((void *)&lk, 0, sizeof lk); plain = pair[0] = pair[1] = 0; torn = inside = 0; entered = 0; atomic_flag_clear(&fl);
    atomic_init(&sh.a, 0); atomic_init(&sh.b, 0); atomic_init(&sh.c, 0); atomic_init(&sh.d, 0); atomic_init(&taken, 0); atomic_store(&go, false); long ids = 0;
    vcd_note("%d threads, %d rounds", n, rounds);
    for (i = 0; i < n; i++) { ids += i + 1; pthread_create(&t[i], NULL, work, (void *)(intptr_t)(i + 1)); }
    atomic_store(&go, true); for (i = 0; i < n; i++) pthread_join(t[i], NULL);
    long k = (long)n * rounds;
    VCD_CHECK(atomic_load(&sh.a) == (int8_t)k && atomic_load(&sh.b) == (uint16_t)-k && atomic_load(&sh.c) == (int32_t)-k && atomic_load(&sh.d) == (size_t)k << 33, "no addition is lost");
    VCD_CHECK(sh.na == 0x5a && sh.nb == 0x5a5a && sh.nc == 0x5a5a5a5a && sh.e[0] == 0x5a, "nothing beside the objects changes");
    VCD_CHECK(sf == (float)k && sd == -0.5 * k, "no addition of floats is lost: %f %f", (double)sf, sd);
    VCD_CHECK(!torn && plain == k && pair[0] == k && pair[1] == k, "one thread at a time holds the lock"); VCD_CHECK(atomic_load(&taken) == (size_t)(ids * rounds), "no compare-exchange is lost");
}
/* what a thread wrote before it published is there for a thread that saw what was published; two threads that each store and then look at the other's do not both miss it */
static long data; static unsigned pub_op, see_op; static atomic_flag mflag, mflag2;
#define MP(A, V, U) static A mo_##A; \
static void reset_##A(void) { atomic_store(&mo_##A, (V)0); } \
static void pub_##A(void) { V e = (V)0; switch (pub_op % 12) { \
    case 0: atomic_store(&mo_##A, (V)1); break; case 1: atomic_exchange(&mo_##A, (V)1); break; case 2: atomic_fetch_add(&mo_##A, (V)1); break; case 3: atomic_fetch_sub(&mo_##A, (V)-1); break; \
    case 4: atomic_fetch_or(&mo_##A, (V)1); break; case 5: atomic_fetch_xor(&mo_##A, (V)1); break; case 6: atomic_compare_exchange_strong(&mo_##A, &e, (V)1); break; \
    case 7: while (!atomic_compare_exchange_weak(&mo_##A, &e, (V)1)) e = (V)0; break; case 8: atomic_swap(&mo_##A, &e, (V)1); break; case 9: atomic_store_explicit(&mo_##A, (V)1, memory_order_release); break; \
    case 10: atomic_exchange_explicit(&mo_##A, (V)1, memory_order_acq_rel); break; case 11: atomic_compare_exchange_strong_explicit(&mo_##A, &e, (V)1, memory_order_release, memory_order_relaxed); break; } } \
static int see_##A(void) { V e = (V)0; switch (see_op % 10) { \
    case 0: return atomic_load(&mo_##A) != 0; case 1: return atomic_fetch_add(&mo_##A, (V)0) != 0; case 2: return atomic_fetch_sub(&mo_##A, (V)0) != 0; case 3: return atomic_fetch_or(&mo_##A, (V)0) != 0; \
    case 4: return atomic_fetch_xor(&mo_##A, (V)0) != 0; case 5: return atomic_fetch_and(&mo_##A, (V)-1) != 0; case 6: atomic_compare_exchange_strong(&mo_##A, &e, (V)0); return e != 0; \
    case 7: atomic_compare_exchange_weak(&mo_##A, &e, (V)0); return e != 0; case 8: return atomic_get(V, &mo_##A) != 0; case 9: return atomic_load_explicit(&mo_##A, memory_order_acquire) != 0; } \
    return 0; }
KINDS(MP)
#define MPS(S, T, B) static T mt_##S; \
static void resets_##S(void) { c89atomic_store_##S(&mt_##S, (T)0); } \
static void pubs_##S(void) { T e = (T)0; switch (pub_op % 9) { \
    case 0: c89atomic_store_##S(&mt_##S, (T)1); break; case 1: c89atomic_exchange_##S(&mt_##S, (T)1); break; case 2: c89atomic_fetch_add_##S(&mt_##S, (T)1); break; case 3: c89atomic_fetch_sub_##S(&mt_##S, (T)-1); break; \
    case 4: c89atomic_fetch_or_##S(&mt_##S, (T)1); break; case 5: c89atomic_fetch_xor_##S(&mt_##S, (T)1); break; case 6: c89atomic_compare_exchange_strong_##S(&mt_##S, &e, (T)1); break; \
    case 7: c89atomic_compare_and_swap_##S(&mt_##S, (T)0, (T)1); break; case 8: c89atomic_store_explicit_##S(&mt_##S, (T)1, memory_order_release); break; } } \
static int sees_##S(void) { T e = (T)0; switch (see_op % 7) { \
    case 0: return c89atomic_load_##S(&mt_##S) != 0; case 1: return c89atomic_fetch_add_##S(&mt_##S, (T)0) != 0; case 2: return c89atomic_fetch_or_##S(&mt_##S, (T)0) != 0; \
    case 3: c89atomic_compare_exchange_strong_##S(&mt_##S, &e, (T)0); return e != 0; case 4: return c89atomic_compare_and_swap_##S(&mt_##S, (T)0, (T)0) != 0; \
    case 5: return c89atomic_fetch_xor_##S(&mt_##S, (T)0) != 0; default: return c89atomic_load_explicit_##S(&mt_##S, memory_order_acquire) != 0; } }
SIZED(MPS) MPS(f32, float, uint32_t) MPS(f64, double, uint64_t)
static atomic_ptr_t mo_p;
static void reset_p(void) { atomic_store(&mo_p, NULL); }
static void pub_p(void) { void *e = NULL; switch (pub_op % 8) {
    case 0: atomic_store(&mo_p, &data); break; case 1: atomic_exchange(&mo_p, &data); break; case 2: atomic_compare_exchange_strong(&mo_p, &e, &data); break; case 3: atomic_swap(&mo_p, &e, &data); break;
    case 4: c89atomic_store_ptr(&mo_p, &data); break; case 5: c89atomic_exchange_ptr(&mo_p, &data); break; case 6: c89atomic_compare_exchange_strong_ptr(&mo_p, &e, &data); break; case 7: c89atomic_compare_and_swap_ptr((volatile void **)&mo_p, NULL, &data); break; } }
static int see_p(void) { void *e = NULL; switch (see_op % 5) {
    case 0: return (void *)atomic_load(&mo_p) != NULL; case 1: return c89atomic_load_ptr(&mo_p) != NULL; case 2: return atomic_get(void *, &mo_p) != NULL; case 3: atomic_swap(&mo_p, &e, NULL); return e != NULL; default: return c89atomic_compare_and_swap_ptr((volatile void **)&mo_p, NULL, NULL) != NULL; } }
static void reset_f(void) { atomic_flag_clear(&mflag); atomic_flag_test_and_set(&mflag2); }
static void pub_f(void) { if (pub_op & 1) atomic_flag_test_and_set(&mflag); else atomic_flag_clear(&mflag2); }
static int see_f(void) { return pub_op & 1 ? atomic_flag_load(&mflag) : !atomic_flag_test_and_set(&mflag2); }
static const struct { const char *n; void (*reset)(void), (*pub)(void); int (*see)(void); } mp[] = {
#define MPR(A, V, U) { #A, reset_##A, pub_##A, see_##A },
#define MPRS(S, T, B) { #S, resets_##S, pubs_##S, sees_##S },
    KINDS(MPR) SIZED(MPRS) MPRS(f32, ,) MPRS(f64, ,) { "pointer", reset_p, pub_p, see_p }, { "flag", reset_f, pub_f, see_f } };
static unsigned mp_i;
static void *publish(void *x) { data = 42; mp[mp_i].pub(); return x; }
static void *look(void *x) { int w = 0; while (!mp[mp_i].see()) if (++w > 1000) sched_yield(); return (void *)data; }
static void message(void)
{
    pthread_t a, b; void *r = NULL; mp_i = vcd_below(sizeof mp / sizeof *mp); pub_op = vcd_below(5 * 7 * 9 * 11 * 12); see_op = vcd_below(5 * 7 * 9 * 11 * 12); data = 0; mp[mp_i].reset();
    vcd_note("data is written, then published by operation %u on %s, seen by operation %u, then read", pub_op, mp[mp_i].n, see_op);
    pthread_create(&b, NULL, look, NULL); pthread_create(&a, NULL, publish, NULL); pthread_join(a, NULL); pthread_join(b, &r);
    VCD_CHECK((long)r == 42, "what was written before it was published is read after it was seen");
}
#define ROUNDS 3000
static volatile int s1[ROUNDS], s2[ROUNDS]; static atomic_int sb_at;
#define SB(A, V, U) static A x_##A, y_##A; static void zero_##A(void) { atomic_store(&x_##A, (V)0); atomic_store(&y_##A, (V)0); } \
    static int one_##A(void) { atomic_store(&x_##A, (V)1); return (int)atomic_load(&y_##A); } static int two_##A(void) { atomic_store(&y_##A, (V)1); return (int)atomic_load(&x_##A); }
#define SBS(S, T, B) static T xs_##S, ys_##S; static void zeros_##S(void) { c89atomic_store_##S(&xs_##S, (T)0); c89atomic_store_##S(&ys_##S, (T)0); } \
    static int ones_##S(void) { c89atomic_store_##S(&xs_##S, (T)1); return (int)c89atomic_load_##S(&ys_##S); } static int twos_##S(void) { c89atomic_store_##S(&ys_##S, (T)1); return (int)c89atomic_load_##S(&xs_##S); }
KINDS(SB) SIZED(SBS) SBS(f32, float, uint32_t) SBS(f64, double, uint64_t)
static atomic_ptr_t x_p, y_p; static void zero_p(void) { atomic_store(&x_p, NULL); atomic_store(&y_p, NULL); }
static int one_p(void) { atomic_store(&x_p, &data); return (void *)atomic_load(&y_p) != NULL; } static int two_p(void) { atomic_store(&y_p, &data); return (void *)atomic_load(&x_p) != NULL; }
static void zeros_p(void) { c89atomic_store_ptr(&x_p, NULL); c89atomic_store_ptr(&y_p, NULL); }
static int ones_p(void) { c89atomic_store_ptr(&x_p, &data); return c89atomic_load_ptr(&y_p) != NULL; } static int twos_p(void) { c89atomic_store_ptr(&y_p, &data); return c89atomic_load_ptr(&x_p) != NULL; }
static const struct { const char *n; void (*zero)(void); int (*one)(void), (*two)(void); } sb[] = {
#define SBR(A, V, U) { #A, zero_##A, one_##A, two_##A },
#define SBRS(S, T, B) { #S, zeros_##S, ones_##S, twos_##S },
    KINDS(SBR) SIZED(SBRS) SBRS(f32, ,) SBRS(f64, ,) { "pointer", zero_p, one_p, two_p }, { "ptr", zeros_p, ones_p, twos_p } };
static unsigned sb_i;
/* both threads meet before every round, and again after it */
static void meet(int n) { __atomic_fetch_add((int *)&sb_at, 1, __ATOMIC_SEQ_CST); int w = 0; while (__atomic_load_n((int *)&sb_at, __ATOMIC_SEQ_CST) < n) if (++w > 1000) sched_yield(); }
static void *other(void *x) { int i; for (i = 0; i < ROUNDS; i++) { meet(4 * i + 2); s2[i] = sb[sb_i].two(); meet(4 * i + 4); } return x; }
static void both(void)
{
    pthread_t t; int i, n = 0; sb_i = vcd_below(sizeof sb / sizeof *sb); __atomic_store_n((int *)&sb_at, 0, __ATOMIC_SEQ_CST); vcd_note("two threads each store 1 in their %s and load the other's, %d rounds", sb[sb_i].n, ROUNDS);
    sb[sb_i].zero(); pthread_create(&t, NULL, other, NULL);
    for (i = 0; i < ROUNDS; i++) { sb[sb_i].zero(); meet(4 * i + 2); s1[i] = sb[sb_i].one(); meet(4 * i + 4); n += !s1[i] && !s2[i]; }
    pthread_join(t, NULL); VCD_CHECK(!n, "in %d rounds neither thread saw what the other stored", n);
}
void vcd_trial(uint64_t n)
{
    if (n % 64 == 63) { threads(); return; }
    if (n % 64 == 31) { both(); return; }
    if (n % 4 == 1) { message(); return; }
#define RUN(A, V, U) seq_##A,
#define RUNF(S, T, B) fix_##S,
    static void (*const f[])(void) = { KINDS(RUN) SIZED(RUNF) fix_f32, fix_f64, seq_ptr };
    f[vcd_below(sizeof f / sizeof *f)]();
}
