/*@vc
prop C23 C25
src future.c
func thrd_scope thrd_destroy thrd_spawn_ex
stub thrd_spawn thrd_cpu_count
cases FN 0 2
unwind 2
timeout 300
doc a new thread scope holds no task, has no table yet, a scope of its own, the number of processors, and is that of the thread; its tables are protected while an exception unwinds; ending any thread scope unprotects and frees both tables once, then its scope, which holds the results, once, and nothing if it is none;
\ spawning with a format passes on the function and a container of the arguments, that belongs to no scope yet (so to that of its promise, c23_spawn)
assume calloc_full as in C03, raii_args_ex as in C20, protection as in C04
@*/
#include "vc.h"
#include "raii.h"
#include "vc_atomic.h"
static memory_t SS, LS; static struct future_pool L; static int ninit, nalloc, nprot, nfree, nunp, ndel, nsp; static size_t cpus; static ex_ptr_t *sp, pr, *order[2]; static char T0[1], T1[1]; static struct args_s X; static struct result_data D; static bool pf, pr_;
bool is_empty(void *p) { return p == NULL; }
raii_type type_of(void *s) { return ((var_t *)s)->type; }
bool is_type(void *s, raii_type t) { return type_of(s) == t; }
int atexit(void (*f)(void)) { return 0; }
unique_t *unique_init(void) { CHECK(ninit == 0, "one scope"); ninit++; return &SS; } memory_t *raii_init(void) { return &LS; } memory_t *raii_local(void) { return &LS; }
void *calloc_full(memory_t *m, int c, size_t s, func_t f) { CHECK(m == &SS && (size_t)c * s == sizeof(struct future_pool) && f == RAII_FREE && nalloc == 0, "in its own scope"); nalloc++; SS.protector = &pr; return &L; }
size_t thrd_cpu_count(void) { return cpus; }
ex_ptr_t ex_protect_ptr(ex_ptr_t *c, void *p, void (*f)(void *)) { ex_ptr_t z; CHECK(f == RAII_FREE && (p == (void *)&L.futures || p == (void *)&L.results) && c != NULL, "a table is protected"); if (p == (void *)&L.futures) { CHECK(!pf, "once"); pf = true; } else { CHECK(!pr_, "once"); pr_ = true; } CHECK(nprot == 0 || c != order[0], "each by its own"); order[nprot & 1] = c; nprot++; z.next = NULL; z.type = ex_protected_st; z.ptr = p; z.func = f; z.is_emulated = false; return z; }
void ex_unprotected_ptr(ex_ptr_t *c) { CHECK(c == &L.protector || c == &pr, "its protection"); CHECK(nunp < 2 && (nunp == 0 || order[0] != c) && ndel == 0, "once, before its memory is released"); order[nunp & 1] = c; nunp++; }
static bool f0, f1; void vc_free(void *p) { if (p == T0) { CHECK(!f0 && ndel == 0, "once"); f0 = true; } else { CHECK(p == T1 && !f1 && ndel == 0, "the tables, once"); f1 = true; } nfree++; }
void raii_delete(memory_t *m) { CHECK(m == &SS && ndel == 0 && nfree == 2 && nunp == 2, "its scope, last, once"); ndel++; }
args_t raii_args_ex(memory_t *m, const char *d, va_list a) { CHECK(m == NULL && d == (const char *)T0, "a container of the arguments, bound to no scope yet"); return &X; }
static void *task(args_t a) { return NULL; }
result_t thrd_spawn(thrd_func_t f, void_t a) { CHECK(f == task && a == (void *)&X && nsp == 0, "the function with its arguments"); nsp++; return &D; }
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt) { CHECK(0, "no exception"); ASSUME(0); }
bool va_load(volatile void *f, int o) { return false; } bool va_set(volatile void *f, int o) { return false; } void va_clear(volatile void *f, int o) { } void va_lock(volatile void *m) { } void va_unlock(volatile void *m) { }
#include "vc_loops.h"
#include "src_future.c"
void harness(void)
{
#if FN == 0
    cpus = nd_size(); future_t p = thrd_scope(); CHECK(p == &L && LS.arena == (void *)&L && L.type == RAII_SPAWN && L.thread_count == 0 && L.futures == NULL && L.results == NULL && L.cpu_present == cpus && L.scope == &SS, "a thread scope without tasks"); CHECK(pf && pr_ && nprot == 2, "its tables are protected"); REACH("created");
#elif FN == 1
    bool is = nd_bool(); L.type = RAII_SPAWN; if (!is) { L.type = nd_i32(); ASSUME(L.type != RAII_SPAWN); } L.scope = &SS; SS.protector = &pr; L.futures = (void *)T0; L.results = (void *)T1; L.thread_count = nd_i32();
    thrd_destroy(&L); CHECK(ndel == is && nfree == 2 * is && nunp == 2 * is, "everything is released once, if it is a thread scope"); if (is) REACH("destroyed"); else REACH("none");
#else
    result_t d = thrd_spawn_ex(task, (const char *)T0, nd_i32()); CHECK(d == &D && nsp == 1, "the slot of the task"); REACH("spawned");
#endif
}
