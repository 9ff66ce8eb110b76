/* Abstract view of a scope's deferred list: a sequence of entries; two of them (arbitrary indices gk, gj) are
 * watched by ghosts.  Included by the units about scopes after the source. */
struct vc_scope {    /* the layout of memory_s, with the list typed as the code accesses it */
    void *arena; bool is_recovered, is_protected, is_arena, is_emulated; int status; size_t mid;
    raii_array_t list; size_t pad; ex_ptr_t *protector; ex_backtrace_t *backtrace; void *volatile err; const char *volatile panic;
};
_Static_assert(sizeof(struct vc_scope) == sizeof(memory_t) && offsetof(struct vc_scope, list) == offsetof(memory_t, defer)
    && offsetof(struct vc_scope, protector) == offsetof(memory_t, protector) && offsetof(struct vc_scope, panic) == offsetof(memory_t, panic)
    && offsetof(struct vc_scope, status) == offsetof(memory_t, status) && offsetof(struct vc_scope, mid) == offsetof(memory_t, mid)
    && offsetof(struct vc_scope, is_emulated) == offsetof(memory_t, is_emulated) && offsetof(struct vc_scope, err) == offsetof(memory_t, err), "layout of memory_s");
static struct vc_scope vc_thread_scope, vc_heap_scope;
static memory_t *S;                     /* the scope under contract */
static size_t gk, gn;                   /* watched index, initial length */
#ifdef GJ
static size_t gj;
#endif
static void *gB;                        /* the live list block */
static int nrealloc;
#define L ((raii_array_t *)&S->defer)
#define ENT(i) (((defer_func_t *)L->base)[i])
#define UP16(n) (((n) + 15) / 16 * 16)
#define LMAX ((size_t)1 << 40)
#define SAMEENT(x, y) ((x).func == (y).func && (x).data == (y).data && (x).check == (y).check)
#define WF() (L->type == RAII_DEF_ARR && L->elements <= LMAX && L->base == gB \
    && (L->base == NULL ? L->elements == 0 : OFF(L->base) == 0 && OBJSZ(L->base) >= sizeof(defer_func_t) * UP16(L->elements)))
static inline defer_func_t *list_new(size_t cap) { return __CPROVER_allocate(sizeof(defer_func_t) * cap, 0); }
static void list_any(void)
{
    L->type = RAII_DEF_ARR; L->elements = nd_size(); L->base = NULL;
    size_t cap = nd_size(); ASSUME(cap <= 2 * LMAX);
    if (nd_bool()) { L->base = list_new(cap); ASSUME(L->base != NULL); }
    gB = L->base;
}
/* realloc: the list block moves, the entries it holds are copied (watched ones shown), the old block is gone */
#ifndef OWN_REALLOC
void *vc_realloc(void *p, size_t n)
{
    CHECK(p == gB, "realloc is given the live list block");
    nrealloc++;
    if (nd_bool()) return NULL;
    size_t c = n / sizeof(defer_func_t); ASSUME(n == c * sizeof(defer_func_t) && c <= 2 * LMAX);
    defer_func_t *q = list_new(c); ASSUME(q != NULL);
    if (p) {
        size_t o = OBJSZ(p);
        if (o > n) o = n;
        if ((gk + 1) * sizeof(defer_func_t) <= o) q[gk] = ((defer_func_t *)p)[gk];
#ifdef GJ
        if ((gj + 1) * sizeof(defer_func_t) <= o) q[gj] = ((defer_func_t *)p)[gj];
#endif
    }
    gB = q;
    return q;
}
#endif
static void scope_any(bool heap)
{
    if (heap) S = (memory_t *)&vc_heap_scope; else S = (memory_t *)&vc_thread_scope;
    thrd_raii_tls = (memory_t *)&vc_thread_scope;
    gk = nd_size(); ASSUME(gk < LMAX);
#ifdef GJ
    gj = nd_size(); ASSUME(gj < LMAX);
#endif
    list_any(); ASSUME(WF() && L->elements < LMAX);
    gn = L->elements;
}
