/*@vc
prop C03
src raii.c
func malloc_full calloc_full malloc_default calloc_default malloc_by calloc_by malloc_arena calloc_arena
stub raii_destroy raii_deferred raii_init arena_alloc arena_calloc
unwind 2
cases KIND 0 7
doc memory requested through a scope (any size, count, release function, scope state; any allocation or registration failure): the block has the requested size,
\ is zeroed by the zeroing variants, and is registered exactly once with the given release function; a failure throws the panic exception, returns nothing and leaks nothing;
\ arena scopes pass the request to their arena
assume malloc and calloc return null or a new block of the requested size (zeroed by calloc)
@*/
#include "vc.h"
#include "raii.h"
void raii_destroy(void) { }
static memory_t sc; static int nreg, nb; static void *b_[2], *regd; static size_t bsz[2]; static func_t regf; static bool bfree[2], bz_[2], pre_prot; static ex_ptr_t old_prot; static size_t want, wc, wn; static char A[2];
static bool refused; static size_t as, an; static int na;
memory_t *raii_init(void) { return &sc; }
static void *give(size_t n, bool zero)
{
    if (nd_bool()) { refused = true; return NULL; }
    CHECK(nb < 2, "at most the block and the protector are requested"); if (nb >= 2) return NULL;
    void *p = vc_new(n, zero); ASSUME(p != NULL); b_[nb] = p; bsz[nb] = n; bz_[nb] = zero; nb++; return p;
}
void *vc_malloc(size_t n) { return give(n, false); }
void *vc_calloc(size_t c, size_t n) { return give(c == wc && n == wn ? want : c * n, true); }
void vc_free(void *p)
{
    if (!p) return;
    int i = p == b_[0] ? 0 : 1; CHECK(p == b_[i] && !bfree[i] && p != sc.protector, "only the unregistered block is freed, once");
    CHECK(nreg == 0, "a registered block is not freed"); bfree[i] = true;
}
static void rel(void *p) { (void)p; }
size_t raii_deferred(memory_t *s, func_t f, void *d)
{
    CHECK(s == &sc, "registered on the scope given");
    if (nd_bool()) { refused = true; return (size_t)-1; }
    nreg++; regf = f; regd = d; return 7;
}
void ex_throw(string_t ex, string_t file, int line, string_t function, string_t message, ex_backtrace_t *dump)
{
    extern const char EX_NAME(panic)[];
    CHECK(refused, "only when memory cannot be found"); CHECK(ex == EX_NAME(panic), "the panic exception is thrown");
    CHECK((b_[0] == NULL || bfree[0] || b_[0] == sc.protector) && (b_[1] == NULL || bfree[1] || b_[1] == sc.protector), "no unregistered block is left");
    CHECK(nreg == 0, "nothing is registered");
#if KIND < 6
    REACH("throws");
#endif
    ASSUME(0);
}
void *arena_alloc(arena_t a, size_t n) { CHECK((char *)a == A, "the arena of the scope"); na++; as = n; an = 1; return A + 1; }
void *arena_calloc(arena_t a, long c, long n) { CHECK((char *)a == A, "the arena of the scope"); na++; as = (size_t)n; an = (size_t)c; return A + 1; }
#include "src_raii.c"
void harness(void)
{
    size_t n = nd_size(), gb = nd_size(); int c = nd_i32(); func_t f = RAII_FREE; void *r;
    bool zero = KIND == 1 || KIND == 3 || KIND == 5 || KIND == 7;
    if (zero) ASSUME(c >= 0 && c < (1 << 16) && n < ((size_t)1 << 36)); else c = 1;
    ASSUME(n < ((size_t)1 << 56)); wc = (size_t)c; wn = n; want = zero ? n * (size_t)c : n; ASSUME(gb < want || want == 0);
    sc.arena = A; sc.is_arena = nd_bool(); sc.is_emulated = nd_bool(); sc.is_protected = nd_bool(); sc.err = (void *)nd_size();
    pre_prot = nd_bool(); sc.protector = pre_prot ? &old_prot : NULL; ASSUME(old_prot.type != ex_protected_st);
    void *err = sc.err; bool arena = sc.is_arena;
    if (KIND == 0) { f = nd_bool() ? rel : RAII_FREE; r = malloc_full(&sc, n, f); }
    else if (KIND == 1) { f = nd_bool() ? rel : RAII_FREE; r = calloc_full(&sc, c, n, f); }
    else if (KIND == 2) r = malloc_default(n);
    else if (KIND == 3) r = calloc_default(c, n);
    else if (KIND == 4) r = malloc_by(&sc, n);
    else if (KIND == 5) r = calloc_by(&sc, c, n);
    else if (KIND == 6) r = malloc_arena(&sc, n);
    else r = calloc_arena(&sc, c, n);
#if KIND >= 4
    if (KIND >= 6 || arena) {
        CHECK(na == 1 && r == A + 1 && nb == 0 && nreg == 0, "the arena serves the request");
        CHECK(as == n && an == (size_t)c, "the requested size"); REACH("arena"); return;
    }
#endif
#if KIND < 6
    CHECK(na == 0, "not from an arena");
    int i = r == b_[0] ? 0 : 1;
    CHECK(r != NULL && r == b_[i] && !bfree[i] && bsz[i] == want && r != sc.protector, "a new block of the requested size is returned");
    CHECK(nreg == 1 && regd == r && regf == f, "registered for release once, by the given function");
    if (zero && want) CHECK(bz_[i] && (want == 0 || ((unsigned char *)r)[gb] == 0), "zeroed");
    CHECK(sc.mid == 7, "the index is remembered");
    CHECK(sc.protector != NULL && sc.protector->type != ex_protected_st && sc.is_protected, "the scope releases it on unwinding, nothing else does");
    CHECK(sc.err == err && sc.arena == A && sc.is_arena == arena, "the rest of the scope is unchanged");
    REACH("allocated"); if (pre_prot) REACH("not the first");
#endif
}
