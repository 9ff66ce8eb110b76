/*@vc
prop C21
src arena.c
func arena_clear arena_free
nloops arena_clear 1
loop arena_clear 0
 havoc k pops gstate freed free_list num_free
 hcode state();
 inv k <= LEN && arena->next == CN(k) && arena->avail == AV(k) && arena->limit == LI(k) && num_free == NF0 + pops && pops >= 0 && pops <= (int)k && (all ==> pops == 0 && gstate != 1) && (k > gk ==> gstate == 1 || gstate == 2) && (k <= gk ==> gstate == 0)
 inv (gstate == 2 ==> freed == 1) && (gstate != 2 ==> freed == 0)
 inv gstate == 1 ==> W->next == wn && W->limit == (char *)W + wsz
 begin node();
 step popped();
 dec (long)(LEN - k)
unwind 2
cases KIND 0 1
timeout 600
doc arena_clear on an arena with any number LEN of chunks of any sizes: the chunk at any place gk of its chain is, exactly once, either freed or put on the shared free list, linked to the chunks that are there, with its own end as limit; chunks on the free list before stay linked; afterwards the arena has no chunk, as a new one;
\ it terminates; arena_free in addition frees every chunk rather than recycle it, and the arena itself exactly once, last
assume sizes below 2^45 bytes, at most 2^20 chunks recycled at a time (int counter); the difference of two null pointers is 0
@*/
#include "vc.h"
#include "raii.h"
static char Z[1]; static size_t HS; static arena_t W; static char *B[2]; static size_t wsz, bsz[2], woff, boff[2], k, gk, LEN; static int gstate, freed, afreed, NF0, pops; static arena_t R, wn, Fold, fl0, Ffl, cur; static int fl_n; static struct arena_s cursaved; static bool all;
static void node(void), state(void), popped(void);
#define CN(i) ((i) >= LEN ? (arena_t)NULL : (i) == gk ? W : (arena_t)B[(i) & 1])
#define CS(i) ((i) == gk ? wsz : bsz[(i) & 1])
#define AV(i) ((i) >= LEN ? (char *)Z : (char *)CN(i) + ((i) == gk ? woff : boff[(i) & 1]))
#define LI(i) ((i) >= LEN ? (char *)Z : (char *)CN(i) + CS(i))
#include "vc_loops.h"
#include "src_arena.c"

bool is_empty(void *p) { return p == NULL; }                               /* c24_types */
bool is_type(void *o, raii_type t) { return ((var_t *)o)->type == t; }
static int freed_cur;
void vc_free(void *p)
{
    if (p == R) { CHECK(KIND == 1 && afreed == 0 && k == LEN, "the arena is freed once, last"); afreed++; return; }
    CHECK(k < LEN && p == CN(k) && freed_cur == 0, "a chunk is freed at its turn, once"); freed_cur++;
    if (k == gk) { CHECK(gstate == 0, "once"); freed++; }
}
void *vc_malloc(size_t n) { CHECK(0, "nothing is allocated"); return NULL; }
void *vc_realloc(void *p, size_t n) { CHECK(0, "nothing is allocated"); return NULL; }
/* the chunk about to be popped, with the state it saves; what is on the free list before: any chunk, or none */
static void node(void)
{
    freed_cur = 0; if (k >= LEN) return;
    arena_t c = CN(k); c->type = RAII_ARENA; c->next = CN(k + 1); c->avail = k + 1 >= LEN ? Z : AV(k + 1); c->limit = LI(k + 1); fl0 = free_list; fl_n = num_free; cur = c;
    if (fl0 == Fold) { Ffl = Fold->next; }
}
static void state(void)
{
    ASSUME(k <= LEN && pops >= 0 && pops <= (int)k); R->next = CN(k); R->avail = AV(k); R->limit = LI(k);
    if (k > gk && gstate == 1) { W->next = wn; W->limit = (char *)W + wsz; }
    free_list = nd_bool() ? NULL : nd_bool() && k > gk && gstate == 1 ? W : Fold;
}
static void popped(void)
{
    if (freed_cur) { CHECK(free_list == fl0 && num_free == fl_n, "a freed chunk is not on the free list"); if (cur == W) gstate = 2; }
    else { CHECK(!all, "freeing an arena recycles nothing"); CHECK(free_list == cur && cur->next == fl0 && num_free == fl_n + 1, "a chunk that is not freed is on the free list, before the others"); CHECK(cur->limit == (char *)cur + CS(k), "with its own end"); pops++; if (cur == W) { gstate = 1; wn = fl0; } }
    if (fl0 == Fold) CHECK(Fold->next == Ffl, "chunks on the free list stay linked"); 
    k++;
}
void harness(void)
{
    HS = sizeof(union header); LEN = nd_size(); gk = nd_size(); k = 0; wsz = nd_size(); bsz[0] = nd_size(); bsz[1] = nd_size(); const size_t big = (size_t)1 << 45;
    ASSUME(LEN < (1 << 20) && wsz >= HS && wsz < big && bsz[0] >= HS && bsz[0] < big && bsz[1] >= HS && bsz[1] < big); woff = nd_size(); boff[0] = nd_size(); boff[1] = nd_size(); ASSUME(woff >= HS && woff <= wsz && boff[0] >= HS && boff[0] <= bsz[0] && boff[1] >= HS && boff[1] <= bsz[1]);
    W = vc_new(wsz, 0); B[0] = vc_new(bsz[0], 0); B[1] = vc_new(bsz[1], 0);
    struct arena_s a, f; R = &a; Fold = &f; f.next = (void *)nd_size(); f.limit = (char *)nd_size(); char *flim = f.limit; a.type = RAII_ARENA + RAII_STRUCT; a.is_global = false; a.threshold = nd_size(); a.total = nd_size(); a.base = (void *)nd_size(); a.bytes = nd_size();
    ASSUME(a.threshold < (1 << 20)); size_t th = a.threshold, tot = a.total; void *base = a.base; arena_t fn = f.next;
    a.next = CN(0); a.avail = AV(0); a.limit = LI(0); num_free = NF0 = nd_i32(); ASSUME(NF0 >= 0 && NF0 < (1 << 20)); free_list = nd_bool() ? NULL : Fold; all = KIND == 1; if (KIND == 1) NF0 += (int)th + 1; node();
#if KIND == 0
    arena_clear(&a);
    CHECK(a.next == NULL && a.avail == a.limit, "the arena has no chunk, as a new one"); CHECK(a.type == RAII_ARENA + RAII_STRUCT && !a.is_global && a.threshold == th && a.total == tot, "and serves new requests as before");
    CHECK(num_free == NF0 + pops, "the number of recycled chunks is right");
#else
    arena_free(&a); CHECK(afreed == 1, "the arena is freed"); CHECK(num_free == NF0 - (int)th - 1 && pops == 0, "nothing is recycled");
#endif
    CHECK(gk >= LEN || gstate == 1 || gstate == 2, "every chunk is recycled or freed, once"); CHECK(gk < LEN || gstate == 0, "only those of the arena"); CHECK(f.next == fn && f.limit == flim, "chunks recycled before are unchanged");
    if (gk < LEN && gstate == 2 && gk > 3) REACH("freed");
#if KIND == 0
    if (gk < LEN && gstate == 1 && gk > 3) REACH("recycled");
    arena_clear(&a); CHECK(a.next == NULL && (gstate != 2 || freed == 1), "clearing again does nothing");
#endif
    arena_clear(NULL); arena_free(NULL); if (!LEN) REACH("empty");
}
