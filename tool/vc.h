/* Verification vocabulary.  Included first by every proof unit (CBMC) and, with
 * VC_NATIVE, by the replay of a verifier counterexample on the real code. */
#ifndef VC_H
#define VC_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include <stdlib.h>

/* RAII_MALLOC & co. are mapped to these in proof units; a unit that uses them defines their contract */
void *vc_malloc(size_t); void *vc_calloc(size_t, size_t); void *vc_realloc(void *, size_t); void vc_free(void *);
void *vc_memalign(size_t, size_t);

#ifdef VC_NATIVE
#include <stdio.h>
extern uint64_t vc_next(void);
extern void vc_fail(const char *d);
extern void vc_skip(void);
#define ASSUME(c) do { if (!(c)) vc_skip(); } while (0)
#define CHECK(c, d) do { if (!(c)) vc_fail(d); } while (0)
#define REACH(d) do { } while (0)
static inline uint64_t nd_u64(void) { return vc_next(); }
static inline void *vc_new(size_t n, int zero) { (void)zero; return calloc(1, n ? n : 1); }
#else
uint64_t nondet_vc_u64(void);
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, d) __CPROVER_assert(c, "VC " d)
/* an assertion that must fail: shows that the point is reachable, i.e. the
 * preconditions before it are not contradictory */
#define REACH(d) __CPROVER_assert(0, "REACH " d)
static inline uint64_t nd_u64(void) { uint64_t vc_in = nondet_vc_u64(); return vc_in; }
static inline void *vc_new(size_t n, int zero) { return __CPROVER_allocate(n, zero); }
#define OFF(p) ((size_t)__CPROVER_POINTER_OFFSET(p))
#define SAME(p, q) __CPROVER_same_object((p), (q))
#define OBJSZ(p) ((size_t)__CPROVER_OBJECT_SIZE(p))
#endif

static inline uint32_t nd_u32(void) { return (uint32_t)nd_u64(); }
static inline int32_t nd_i32(void) { return (int32_t)nd_u64(); }
static inline int64_t nd_i64(void) { return (int64_t)nd_u64(); }
static inline size_t nd_size(void) { return (size_t)nd_u64(); }
static inline uint8_t nd_u8(void) { return (uint8_t)nd_u64(); }
static inline bool nd_bool(void) { return (nd_u64() & 1) != 0; }

#ifndef VC_NATIVE
/* objects whose unchanged bytes a cut loop has to preserve (the frame) */
#define VC_MAXOBJ 12
static unsigned char *vc_obj[VC_MAXOBJ];
static size_t vc_objn[VC_MAXOBJ];
static int vc_nobj;
static inline void vc_reg(const void *p, size_t n)
{
    if (vc_nobj < VC_MAXOBJ) { vc_obj[vc_nobj] = (unsigned char *)p; vc_objn[vc_nobj] = n; vc_nobj++; }
}
typedef struct { int phase; long dec; unsigned char *fp; unsigned char fv; } vc_loop_t;
static inline unsigned char *vc_pick(void)
{
    uint64_t i = nd_u64(); size_t o = nd_size();
    if (i < (uint64_t)vc_nobj && o < vc_objn[i]) return vc_obj[i] + o;
    return NULL;
}
#define VC_HAVOC(x) do { __typeof__(x) vc_hv; (x) = vc_hv; } while (0)
#define VC_PTR(p, base) do { size_t vc_o = nd_size(); __CPROVER_assume(vc_o <= OBJSZ(base)); \
    (p) = (__typeof__(p))((char *)(base) - OFF(base) + vc_o); } while (0)
#define VC_INOBJ(fp, q) ((fp) && __CPROVER_same_object((fp), (q)))
#define VC_INLV(fp, lv) ((fp) && __CPROVER_same_object((fp), &(lv)) && OFF(fp) >= OFF(&(lv)) && OFF(fp) < OFF(&(lv)) + sizeof(lv))
#endif
#endif
