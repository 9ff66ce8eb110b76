/*@vc
prop C21
src arena.c
func arena_init arena_calloc arena_capacity arena_total
stub arena_alloc
subst arena_calloc ~PTRDIFF_MAX / 2 / \(size_t\)count~vc_limit~
unwind 2
timeout 300
doc a new arena has no chunk and the requested threshold (10 by default); exhaustion throws; arena_calloc zeroes exactly the requested block, a product of count and size that does not fit throws; arena_capacity is the room left in the active chunk, arena_total what was asked of the system
assume a count times a size is at most a limit exactly when the size is at most the limit divided by the count (c21_lemma), so the product does not overflow; the arena does not serve 2^45 bytes or more (then it throws, c21_alloc)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
static bool nomem; static struct arena_s X; static char *blk; static size_t bn; static int na; static size_t vc_limit; static long cc, cn; static bool over;
bool is_empty(void *p) { return p == NULL; }
bool is_type(void *o, raii_type t) { return ((var_t *)o)->type == t; }
static struct arena_s heap;
/* try_malloc: c03_try */
void *try_malloc(size_t n) { CHECK(n == sizeof(struct arena_s), "an arena"); return &heap; }
void *arena_alloc(arena_t a, long n) { CHECK(a == &X && n > 0 && !over && (size_t)n == (size_t)cc * (size_t)cn, "exactly the requested size"); na++; if (n >= (1L << 45)) { REACH("too large"); ASSUME(0); } return blk + 8; }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt) { CHECK(na == 0 && over, "refused only when the size does not fit"); REACH("refused"); ASSUME(0); }
void vc_free(void *p) { CHECK(0, "nothing is freed"); }
void *vc_malloc(size_t n) { CHECK(0, "not here"); return NULL; }
void *vc_realloc(void *p, size_t n) { CHECK(0, "not here"); return NULL; }
#include "src_arena.c"
void harness(void)
{
    size_t t = nd_size(); heap.next = (void *)nd_size(); heap.avail = (char *)nd_size(); heap.limit = (char *)nd_size(); heap.is_global = nd_bool(); heap.total = nd_size(); heap.bytes = nd_size(); heap.base = (void *)nd_size();
    arena_t a = arena_init(t);
    CHECK(a == &heap && a->next == NULL && a->avail == NULL && a->limit == NULL && a->base == NULL && !a->is_global && a->total == 0 && a->bytes == 0 && a->threshold == (t ? t : 10) && a->type == RAII_ARENA + RAII_STRUCT, "a new arena has no chunk");
    CHECK(arena_total(a) == 0 && arena_total(NULL) == 0 && arena_capacity(NULL) == 0, "nothing asked for yet");
    long c = nd_i64(), n = nd_i64(); ASSUME(c > 0 && n != 0); cc = c; cn = n; vc_limit = nd_size(); over = (size_t)n > vc_limit; ASSUME(over || (n > 0 && !__CPROVER_overflow_mult(c, n) && c * n > 0)); bn = over ? 1 : (size_t)c * (size_t)n; if (bn >= (size_t)1 << 45) bn = 1;
    blk = vc_new(bn + 16, 0); size_t i = nd_size(), o = nd_size(); ASSUME(i < bn && (o < 8 || o >= bn + 8 && o < bn + 16)); char was = blk[o];
    char *r = arena_calloc(&X, c, n);
    CHECK(na == 1 && r == blk + 8, "one block of count times size"); CHECK(r[i] == 0, "zeroed"); CHECK(blk[o] == was, "exactly the block");
    X.type = RAII_ARENA + RAII_STRUCT; X.total = nd_size(); size_t off = nd_size(); ASSUME(off <= bn); X.limit = blk + bn; X.avail = blk + off;
    CHECK(arena_capacity(&X) == bn - off, "room left"); CHECK(arena_total(&X) == (X.total >= sizeof(union header) ? X.total - sizeof(union header) : 0), "asked of the system");
    X.type = RAII_ARENA; CHECK(arena_capacity(&X) == 0 && arena_total(&X) == 0, "of an arena only"); REACH("end");
}
