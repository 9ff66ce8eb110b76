/*@vc
prop C01 C03
src raii.c
func raii_init unique_init unique_init_arena raii_deferred_init raii_delete raii_destroy raii_deferred_clean free_arena
stub raii_deferred_free arena_init arena_free
unwind 2
doc a scope starts empty and armed (thread scope on first use only, heap scopes zeroed); allocation failure throws;
\ raii_delete releases once, then frees a heap scope but not the thread scope; raii_destroy and raii_deferred_clean release the thread scope; free_arena frees the arena after the release
@*/
#include "vc.h"
#include "raii.h"
static ex_context_t ctx; static memory_t heap; static int inits, setups, exits, rel, nfree, nthrow, nalloc, afree; static memory_t *rel_s; static char arena_obj[8]; static bool relfreed;
ex_context_t *ex_init(void) { inits++; return &ctx; }
void ex_signal_setup(void) { setups++; }
int atexit(void (*f)(void)) { exits++; return 0; }
bool exception_signal_set;
void ex_throw(string_t ex, string_t file, int line, string_t function, string_t message, ex_backtrace_t *dump)
{ CHECK(nalloc < 0, "only a failed allocation throws"); nthrow++; REACH("throws"); ASSUME(0); }
void *vc_calloc(size_t n, size_t s) { CHECK(n * s == sizeof(memory_t), "a scope is allocated"); if (nd_bool()) { nalloc = -1; return NULL; } memset(&heap, 0, sizeof heap); nalloc = 1; return &heap; }
void raii_deferred_free(memory_t *s) { CHECK(nfree == 0, "released before it is freed"); rel++; rel_s = s; }
void vc_free(void *p) { CHECK(p == &heap, "the scope is freed"); CHECK(rel == 1 || afree == -1, "released first"); nfree++; }
arena_t arena_init(size_t t) { return (arena_t)arena_obj; }
void arena_free(arena_t a) { if (!a) return; CHECK((char *)a == arena_obj && rel == 1, "the arena is freed after the release"); CHECK(afree == 0, "once"); afree++; }
#include "src_raii.c"
#define EMPTY(s) (((raii_array_t *)&(s)->defer)->type == RAII_DEF_ARR && ((raii_array_t *)&(s)->defer)->elements == 0 && ((raii_array_t *)&(s)->defer)->base == NULL \
    && (s)->arena == NULL && (s)->protector == NULL && (s)->panic == NULL && (s)->err == NULL && !(s)->is_protected && !(s)->is_recovered)
void harness(void)
{
    int k = nd_i32();
    if (k == 0) {
        bool sg = exception_signal_set = nd_bool(); memory_t *s = raii_init(); CHECK(setups == !sg, "signals are set up with the first scope, once"); exception_signal_set = true;
        CHECK(s == &thrd_raii_buffer && raii_local() == s, "the thread scope");
        CHECK(EMPTY(s) && s->mid == (size_t)-1, "the thread scope starts empty");
        CHECK(ctx.data == s && ctx.prev == s && ctx.is_raii, "the exception context knows the scope");
        bool was = nd_bool(); void *e = s->err = (void *)nd_size(); ((raii_array_t *)&s->defer)->elements = 5; int a = exits;
        CHECK(raii_init() == s && s->err == e && ((raii_array_t *)&s->defer)->elements == 5 && exits == a, "later use does not reset it");
        REACH("init");
    } else if (k == 1) {
        memory_t *s = unique_init();
        CHECK(s == &heap && EMPTY(s) && s->mid == (size_t)-1 && !s->is_arena && !s->is_emulated, "a heap scope starts empty");
        REACH("unique_init");
    } else if (k == 2) {
        memory_t *s = unique_init_arena();
        CHECK(s == &heap && s->is_arena && s->arena == arena_obj, "a scope over an arena"); s->arena = NULL; CHECK(EMPTY(s), "starts empty");
        REACH("unique_init_arena");
    } else if (k == 3) {
        raii_delete(NULL); free_arena(NULL); CHECK(rel == 0 && nfree == 0, "no scope");
        raii_delete(&heap); CHECK(rel == 1 && rel_s == &heap && nfree == 1, "released, then freed"); REACH("delete");
    } else if (k == 4) {
        thrd_raii_tls = &thrd_raii_buffer; raii_delete(&thrd_raii_buffer); CHECK(rel == 1 && rel_s == &thrd_raii_buffer && nfree == 0, "the thread scope is released, not freed"); REACH("delete thread");
    } else if (k == 5) {
        thrd_raii_tls = &thrd_raii_buffer; raii_destroy(); CHECK(rel == 1 && rel_s == &thrd_raii_buffer && nfree == 0, "raii_destroy releases the thread scope"); REACH("destroy");
        raii_deferred_clean(); CHECK(rel == 2 && rel_s == &thrd_raii_buffer, "raii_deferred_clean releases the thread scope");
    } else if (k == 6) {
        bool with = nd_bool(); heap.arena = with ? arena_obj : NULL; free_arena(&heap);
        CHECK(rel == 1 && nfree == 1 && afree == with, "scope released, scope and arena freed once"); REACH("free_arena");
    }
}
