/*@vc
prop C25
src raii.c except.c
func raii_local ex_local ex_update raii_mid raii_last_mid
unwind 2
doc the storage behind a thread's scope and exception context: none until the thread asks for one, then always the same, or the one it was replaced by, none again once given up; scope and context do not disturb each other
assume objects declared thread_local are each thread's own (that these are declared so is seen by the driver, which runs threads at once)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
static memory_t *a1, *b1, U; static ex_context_t *a2, V; 
bool is_empty(void *p) { return p == NULL; }
int vc_atexit(void (*f)(void)) { return 0; }
#define atexit vc_atexit
#include "src_raii.c"
#include "src_except.c"
static void own(memory_t **s, ex_context_t **c, bool drop, memory_t *u, ex_context_t *v)
{
    CHECK(is_raii_empty() && is_except_empty() && raii_local() == NULL && ex_local() == NULL, "a new thread has neither scope nor context");
    *s = raii(); *c = except();
    CHECK(*s != NULL && *c != NULL && (void *)*s != (void *)*c && !is_raii_empty() && !is_except_empty(), "it gets them when it asks");
    CHECK(raii() == *s && raii_local() == *s && except() == *c && ex_local() == *c, "and the same again");
    if (u) { raii_update(u); ex_update(v); CHECK(raii_local() == u && ex_local() == v && raii() == u && except() == v, "a replacement is the thread's own");
        size_t m = nd_size(); u->mid = m; CHECK(raii_mid() == m && raii_last_mid(u) == m, "the mark of the scope of the thread"); except_update(*c); CHECK(ex_local() == *c, "the context is put back"); raii_update(*s); }
    if (drop) { raii_del(); except_del(); CHECK(is_raii_empty() && is_except_empty() && raii_local() == NULL && ex_local() == NULL, "given up"); }
    CHECK(drop || (raii_local() == *s && ex_local() == *c), "they stay");
}
void harness(void)
{
    bool d = nd_bool(), w = nd_bool();
    own(&a1, &a2, d, w ? &U : NULL, &V); REACH("own");
    if (d) { b1 = a1; own(&a1, &a2, nd_bool(), NULL, NULL); CHECK(a1 == b1, "the storage is the thread's for good"); REACH("again"); }
}
