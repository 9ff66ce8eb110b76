/*@vc
prop C21 C03
src arena.c
func arena_alloc
nloops arena_alloc 1
loop arena_alloc 0
 havoc arena->next arena->avail arena->limit arena->total free_list num_free got k M msz
 hcode state();
 inv k <= LEN && got >= 0 && got <= 1 && (got ==> k == LEN && arena->avail == M + HS && arena->limit == M + msz && arena->next == (arena_t)M && msz >= HS && msz < (size_t)1 << 47 && (size_t)nbytes <= msz - HS && arena->total >= T0)
 inv !got ==> arena->total == T0 && arena->next == TOP(k) && arena->avail == AV(k) && arena->limit == LI(k)
 inv free_list == FN(k) && num_free == NF0 - (int)k
 begin node();
 step pushed();
 dec (long)(2 * (LEN - k)) + !got
unwind 2
timeout 600
doc arena_alloc on an arena in any state (no chunk, or an active chunk of any size, filled to any point; any number LEN of chunks of any sizes on the shared free list; any threshold): the block has the requested size, lies inside one chunk the arena owns, after its header and past everything handed out of that chunk before,
\ so it overlaps no block handed out since the last clear; a chunk taken into use comes from the free list or the system, so no other arena uses it; every chunk taken saves the state of the arena before it and is linked on its chain; exactly the chunks taken leave the free list; it terminates; memory exhaustion, and a request of a size that is none, throws with the arena unharmed
assume threshold and the total of all requests before below 2^45 bytes (the request itself is any size, a system request of 2^47 bytes or more fails); no null arena; the difference of two null pointers is 0
@*/
#include "vc.h"
#include "raii.h"
static char Z[1];   /* stands for the equal null pointers of an arena without chunk (null - null is 0) */
static char *A, *M, *F[2]; static size_t aoff, asz, fsz[2], msz, LEN, k, T0, HS; static int got, NF0; static arena_t R; static struct arena_s old; static bool fails; static long req;
static void node(void), state(void), pushed(void);
#define FN(i) ((i) >= LEN ? (arena_t)NULL : (arena_t)F[(i) & 1])
/* the active chunk after i chunks have been taken from the free list */
#define TOP(i) ((i) == 0 ? (arena_t)A : (arena_t)F[((i) - 1) & 1])
#define AV(i) ((i) == 0 ? (A ? A + aoff : Z) : F[((i) - 1) & 1] + HS)
#define LI(i) ((i) == 0 ? (A ? A + asz : Z) : F[((i) - 1) & 1] + fsz[((i) - 1) & 1])
#include "vc_loops.h"
#include "src_arena.c"
bool is_empty(void *p) { return p == NULL; }                               /* c24_types */
bool is_type(void *o, raii_type t) { return ((var_t *)o)->type == t; }
void *vc_malloc(size_t n)
{
    CHECK(k == LEN && free_list == NULL, "memory is taken from the system only when no chunk can be recycled");
    if (nd_bool() || n >= (size_t)1 << 47) { fails = true; return NULL; }
    M = vc_new(n, 0); msz = n; got = 1; return M;
}
void *vc_realloc(void *p, size_t n) { CHECK(0, "chunks do not move"); return NULL; }
void vc_free(void *p) { CHECK(0, "nothing is freed"); }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt)
{
    CHECK(fails || req <= 0 || req > PTRDIFF_MAX / 2, "only when memory is exhausted"); CHECK(R->total == T0, "and asks for no more next time"); CHECK(R->next == TOP(k) && R->avail == AV(k) && R->limit == LI(k) && free_list == FN(k), "the arena is unharmed"); REACH("throws"); ASSUME(0);
}
static void node(void) { old = *R; if (k >= LEN) return; arena_t f = FN(k); f->next = FN(k + 1); f->limit = F[k & 1] + fsz[k & 1]; }
static void state(void)
{
    ASSUME(k <= LEN); got = nd_bool();
    if (got) { k = LEN; ASSUME(msz < (size_t)1 << 47 && msz >= HS); M = vc_new(msz, 0); R->next = (arena_t)M; R->avail = M + HS; R->limit = M + msz; R->total = msz; ((arena_t)M)->type = RAII_ARENA; } else { R->total = T0; R->next = TOP(k); R->avail = AV(k); R->limit = LI(k); if (k) TOP(k)->type = RAII_ARENA; }
    free_list = FN(k);
}
static void pushed(void)
{
    arena_t t = R->next; if (!got) k++;
    CHECK(t == (got ? (arena_t)M : FN(k - 1)), "the chunk taken becomes the active one");
    CHECK(t->next == old.next && t->avail == old.avail && t->limit == old.limit && t->type == RAII_ARENA, "it is linked on the chain, with the state before it saved");
}
void harness(void)
{
    HS = sizeof(union header); asz = nd_size(); aoff = nd_size(); fsz[0] = nd_size(); fsz[1] = nd_size(); LEN = nd_size(); T0 = nd_size(); k = 0; got = 0;
    const size_t big = (size_t)1 << 45; ASSUME(asz >= HS && asz < big && aoff >= HS && aoff <= asz && fsz[0] >= HS && fsz[0] < big && fsz[1] >= HS && fsz[1] < big && LEN < big && T0 < big);
    A = nd_bool() ? vc_new(asz, 0) : NULL; F[0] = vc_new(fsz[0], 0); F[1] = vc_new(fsz[1], 0);
    struct arena_s a; R = &a; a.type = RAII_ARENA + RAII_STRUCT; a.is_global = false; a.threshold = nd_size(); ASSUME(a.threshold < big / 1024); a.total = T0; a.base = nd_bool() ? NULL : (void *)nd_size(); a.bytes = nd_size();
    a.next = TOP(0); a.avail = AV(0); a.limit = LI(0); if (A) ((arena_t)A)->type = RAII_ARENA;
    ASSUME(!A || asz <= T0); NF0 = nd_i32(); num_free = NF0; ASSUME(NF0 >= 0 && (size_t)NF0 == LEN); free_list = FN(0); node();
    size_t th = a.threshold;
    size_t wo = nd_size(); ASSUME(!A || wo >= HS && wo < aoff); char w = A ? A[wo] : 0; arena_t an = A ? (arena_t)(((arena_t)A)->next = (arena_t)nd_size()) : NULL;  /* a byte handed out before */
    if (A) vc_reg(A, asz); vc_reg(&a.type, sizeof a.type); vc_reg(&a.threshold, sizeof a.threshold); vc_reg(&a.is_global, sizeof a.is_global);
    long n = nd_i64(); ASSUME(n != 0); req = n;
    char *r = arena_alloc(&a, n);
    CHECK(n > 0, "a request of a size that is none is refused");
    char *C = (char *)a.next; size_t cs = got ? msz : k == 0 ? asz : fsz[(k - 1) & 1];
    CHECK(C == (got ? M : (char *)TOP(k)) && C != NULL, "the active chunk is the last one taken");
    CHECK(SAME(r, C) && OFF(r) >= HS && OFF(r) + (size_t)n <= cs && cs == OBJSZ(C), "the block lies inside a chunk of the arena");
    CHECK((OFF(r) - HS) % 2 == 0 || k == 0 && !got, "aligned in its chunk");
    CHECK(C != A || r == A + aoff, "past everything handed out of that chunk before");
    CHECK(SAME(a.avail, C) && OFF(a.avail) >= OFF(r) + (size_t)n && OFF(a.avail) <= cs && a.limit == C + cs, "later blocks come after it");
    CHECK(a.next->type == RAII_ARENA && a.type == RAII_ARENA + RAII_STRUCT && a.threshold == th && !a.is_global, "the arena stays one");
    CHECK(free_list == FN(k) && num_free == NF0 - (int)k, "exactly the chunks taken leave the free list");
    CHECK(!A || A[wo] == w && ((arena_t)A)->next == an, "memory handed out before and the chain are unchanged"); CHECK(a.total >= T0, "counted");
    if (C == A) REACH("active chunk"); if (k > 3 && !got) REACH("recycled"); if (got && k > 2) REACH("from the system");
}
