/* The atomic operations of future.c as contract points: the text of the function is unchanged,
 * the macros of catomic.h are mapped to these, which the unit defines. */
#undef atomic_flag_load
#undef atomic_flag_load_explicit
#undef atomic_flag_clear
#undef atomic_flag_clear_explicit
#undef atomic_flag_test_and_set
#undef atomic_flag_test_and_set_explicit
#undef atomic_lock
#undef atomic_unlock
#undef atomic_thread_fence
#define VA_ACQ(o) ((o) == memory_order_acquire || (o) == memory_order_acq_rel || (o) == memory_order_seq_cst || (o) == memory_order_consume)
#define VA_REL(o) ((o) == memory_order_release || (o) == memory_order_acq_rel || (o) == memory_order_seq_cst)
bool va_load(volatile void *f, int order); bool va_set(volatile void *f, int order); void va_clear(volatile void *f, int order);
void va_lock(volatile void *m); void va_unlock(volatile void *m);
#define atomic_flag_load(p) va_load((p), memory_order_seq_cst)
#define atomic_flag_load_explicit(p, o) va_load((p), (o))
#define atomic_flag_clear(p) va_clear((p), memory_order_seq_cst)
#define atomic_flag_clear_explicit(p, o) va_clear((p), (o))
#define atomic_flag_test_and_set(p) va_set((p), memory_order_seq_cst)
#define atomic_flag_test_and_set_explicit(p, o) va_set((p), (o))
#define atomic_lock(m) va_lock(m)
#define atomic_unlock(m) va_unlock(m)
