/*@vc
prop C27
src catomic.h
func c89atomic_spinlock_lock c89atomic_spinlock_unlock
nloops c89atomic_spinlock_lock 2
subst c89atomic_spinlock_lock ~c89atomic_flag_test_and_set_explicit~va_set~
subst c89atomic_spinlock_lock ~c89atomic_flag_load_explicit~va_load~
subst c89atomic_spinlock_unlock ~c89atomic_flag_clear_explicit~va_clear~
loop c89atomic_spinlock_lock 0
 inv owner != ME && (held == (owner != 0)) && held <= 1 && B >= 0
 havoc owner held B Bo
 hcode Bo = B;
 dec B
loop c89atomic_spinlock_lock 1
 inv owner != ME && (held == (owner != 0)) && held <= 1 && B >= 0 && B <= Bo
 havoc owner held B
 dec B
unwind 2
doc lock returns only when its own indivisible test-and-set found the flag clear, with acquire order, whatever the other threads do to the flag meanwhile; unlock, called by the owner, clears the flag with release order; hence never two owners
assume the test-and-set, load and clear builtins are indivisible (they are replaced by contract points with a ghost owner); the lock is found taken finitely often, any number of times (locking then ends, proved)
@*/
#include "vc.h"
#include <stdbool.h>
#define ME 1
static long B, Bo;   /* how often the lock is yet found taken */ static unsigned owner, held; static int mine, wrong; static volatile void *L;
bool va_set(volatile void *f, int order); bool va_load(volatile void *f, int order); void va_clear(volatile void *f, int order);
#include "vc_loops.h"
#include "src_catomic.h"
#define ACQ(o) ((o) == memory_order_acquire || (o) == memory_order_acq_rel || (o) == memory_order_seq_cst)
#define REL(o) ((o) == memory_order_release || (o) == memory_order_acq_rel || (o) == memory_order_seq_cst)
static void others(void) { if (owner != ME) { owner = B == 0 || nd_bool() ? 0 : 2; held = owner != 0; } } /* other threads lock and unlock; they leave the lock of its owner alone */
bool va_set(volatile void *f, int order)
{
    CHECK(f == L, "the flag of this lock"); CHECK(ACQ(order), "taking the lock acquires"); others();
    CHECK(owner != ME, "a lock that is held is not taken again by its owner");
    unsigned o = held; held = 1; if (!o) owner = ME; else B--; Bo = B; return o;
}
bool va_load(volatile void *f, int order) { CHECK(f == L, "the flag of this lock"); others(); if (held) B--; return held; }
void va_clear(volatile void *f, int order)
{
    CHECK(f == L, "the flag of this lock"); CHECK(REL(order), "giving up the lock releases"); CHECK(owner == ME, "only the owner gives up the lock"); held = 0; owner = 0;
}
static atomic_spinlock lock;
void harness(void)
{
    B = Bo = (long)nd_size(); ASSUME(B >= 0); L = &lock; owner = nd_bool() ? 0 : 2; held = owner != 0;
    c89atomic_spinlock_lock(&lock);
    others(); CHECK(owner == ME && held, "lock returns with the lock held by the caller"); REACH("locked");
    atomic_unlock(&lock);
    CHECK(owner != ME && !held, "unlock gives it up"); others();
    atomic_lock(&lock); CHECK(owner == ME, "locked again"); REACH("again");
}
