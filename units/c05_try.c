/*@vc
prop C05
src except.c
func ex_init ex_local ex_update
stub ex_throw ex_signal_setup
cases SHAPE 0 10
unwind 4
unwindset strlen.0:30 strcmp.0:30 strncmp.0:30
timeout 300
doc the block macros, expanded at a use with each handler kind (catch, several catch, catch_any, catch_if with and without caught, catch then catch_any / catch_if, a handler that throws it again, none, with and without finally):
\ entering makes the block the active one, with the enclosing block recorded and nothing protected; the body runs once with the block active; after an exception in the body
\ the first handler that applies runs once and no other, with the exception recorded readable in it; finally runs exactly once on every way, with the enclosing block active; on leaving
\ the enclosing block is active and an exception that was not handled, or was thrown by a handler, is passed on with its name, message, file, line and function unchanged, and none else
assume rule for sigsetjmp: it returns 0, or, when siglongjmp is called on its buffer, the value given there, in the block's frame; ex_throw gives the block's state at the throw with the thrown bit (c06_throw), after the block has run up to a point that may throw (the checked state of the block there)
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
#include "src_except.c"
EX_EXCEPTION(out_of_memory_pool); EX_EXCEPTION(out_of); EX_EXCEPTION(range_errors);   /* names that share a prefix with another */
C_API const char EX_NAME(out_of_memory)[]; C_API const char EX_NAME(range_error)[]; C_API const char EX_NAME(logic_error)[];
bool is_empty(void *p) { return p == NULL; }  /* c24_types */
static ex_context_t Outer, *self, Was; static ex_ptr_t prot; static bool sig0; static int nset, nbody, nh[3], nfin, arrival, nthrow, last; static bool thrown, again;
static const char *e_ex, *e_panic, *e_file, *e_fn; static int e_line; static ex_backtrace_t *e_bt; static bool ci;
/* a place where the code of the user may throw: only there, and with this state, does control come back to the block */
static void may_throw(int st) { CHECK(ex_local() == self && ex_init() == self, "the block is the active one in its body and handlers"); CHECK(self->state == st, "an exception of this place is told apart by the state"); }
static void body(void) { CHECK(arrival == 0, "the body runs only when the block is entered"); nbody++; may_throw(0); CHECK(self->next == &Outer && self->stack == NULL && !self->is_guarded && !self->unstack && !self->is_raii && self->type == ex_context_st, "a new block inside the enclosing one"); }
static void handler(int i, int st, const char *err, const char *file, int line) { CHECK(arrival == 1, "handlers run after an exception of the body only"); nh[i]++; may_throw(st); CHECK(err == e_ex && file == e_file && line == e_line, "the exception is readable in the handler"); }
static void fin(const char *err) { nfin++; CHECK(ex_local() == &Outer && ex_init() == &Outer, "the enclosing block is active in finally"); if (arrival) CHECK(err == e_ex, "the exception is readable in finally"); }
void ex_signal_setup(void) { CHECK(!sig0, "set up once"); nset++; exception_signal_set = true; }
int __sigsetjmp(struct __jmp_buf_tag *b, int s)
{
    self = thrd_except_tls; CHECK((char *)b == (char *)&self->buf, "the block resumes here");
    CHECK(self != &Outer && self->next == &Outer && self->stack == NULL && self->ex == NULL && self->panic == NULL && self->unstack == 0 && self->caught == -1 && self->type == ex_context_st, "a new block inside the enclosing one is active before anything can throw");
    CHECK(s == 1, "the signal mask is restored");
    arrival = nd_i32(); ASSUME(arrival == 0 || arrival == 1 || arrival == 3);
    if (arrival) { e_ex = nd_bool() ? EX_NAME(out_of_memory) : nd_bool() ? EX_NAME(range_error) : nd_bool() ? EX_NAME(logic_error) : nd_bool() ? EX_NAME(out_of_memory_pool) : nd_bool() ? EX_NAME(out_of) : EX_NAME(range_errors); e_panic = (char *)nd_size(); e_file = (char *)nd_size(); e_fn = (char *)nd_size(); e_line = nd_i32(); e_bt = self->backtrace;
        self->ex = e_ex; self->panic = e_panic; self->file = e_file; self->function = e_fn; self->line = e_line; self->data = (void *)nd_size(); self->prev = (void *)nd_size(); self->is_unwind = nd_bool(); self->state = nd_i32(); }
    return arrival;
}
static void left(void)
{
    bool A = e_ex == EX_NAME(out_of_memory), B = e_ex == EX_NAME(range_error);
    bool body_thrown = arrival == 1; int h = -1;                              /* the handler that applies */
    if (body_thrown) switch (SHAPE) {
        case 0: h = A ? 0 : -1; break; case 1: h = A ? 0 : B ? 1 : -1; break; case 2: h = 0; break; case 3: h = A ? 0 : 1; break; case 4: h = ci ? 0 : -1; break; case 5: break;
        case 6: h = A ? 0 : ci ? 1 : -1; break; case 7: break; case 8: h = 0; break; case 9: case 10: h = 0; break; }
    for (int i = 0; i < 3; i++) CHECK(nh[i] == (h == i), "the first handler that applies runs exactly once, no other");
    CHECK(nbody == (arrival == 0), "the body runs once");
    CHECK(nfin == (SHAPE != 8 && SHAPE != 5 && SHAPE != 10), "finally runs exactly once");
    CHECK(ex_local() == &Outer && ex_init() == &Outer, "the enclosing block is the active one again");
    CHECK(nset == !sig0, "signal handlers are set up when they were not");
    CHECK(Outer.ex == Was.ex && Outer.state == Was.state && Outer.stack == Was.stack && Outer.next == Was.next && Outer.panic == Was.panic && Outer.is_guarded == Was.is_guarded && Outer.is_raii == Was.is_raii && Outer.data == Was.data && Outer.unstack == Was.unstack, "the enclosing block is unchanged");
    CHECK(thrown == (arrival == 3 || (arrival == 1 && h < 0)), "passed on when no handler applied or a handler threw, and only then");
    if (arrival == 0) REACH("no exception"); 
#if SHAPE != 5 && SHAPE != 7 && SHAPE != 10
    if (h >= 0) REACH("handled");
#endif
#if SHAPE < 2 || SHAPE > 3 && SHAPE < 8
    if (arrival == 1 && h < 0) REACH("not handled");
#endif
    if (arrival == 3) REACH("thrown in a handler");
}
void ex_throw(string_t ex, string_t file, int line, string_t fn, string_t msg, ex_backtrace_t *bt)
{
    CHECK(arrival && ex == e_ex && file == e_file && line == e_line && fn == e_fn && msg == e_panic, "the exception is passed on unchanged"); CHECK(bt != NULL, "with the backtrace of the throw");
#if SHAPE == 10
    if (again) { CHECK(arrival == 1 && ex_local() == self && self->state == ex_catch_st, "thrown to the block itself, as from a handler"); REACH("thrown again"); ASSUME(0); }   /* the block is resumed: arrival 3 */
#endif
    thrown = true; left(); ASSUME(0);
}
void harness(void)
{
    sig0 = exception_signal_set = nd_bool(); ci = nd_bool();
    Outer.type = ex_context_st; Outer.ex = (char *)nd_size(); Outer.state = nd_i32(); Outer.stack = nd_bool() ? &prot : NULL; Outer.next = (void *)nd_size(); Outer.panic = (char *)nd_size(); Outer.is_guarded = nd_bool(); Outer.is_raii = nd_bool(); Outer.data = (void *)nd_size(); Outer.unstack = 0; Was = Outer;
    thrd_except_tls = &Outer;
#define H(i, st) { handler(i, st, err, err_file, err_line); }
#define CI(i) { may_throw(3); if (ci) { ex_local()->state = ex_catch_st; /* caught(), c05_caught */ H(i, 2) } }
#define F { fin(err); }
#if SHAPE == 0
    try { body(); } catch (out_of_memory) H(0, 2) finally F end_try;
#elif SHAPE == 1
    try { body(); } catch (out_of_memory) H(0, 2) catch (range_error) H(1, 2) catch (out_of_memory) H(2, 2) finally F end_try;
#elif SHAPE == 2
    try { body(); } catch_any H(0, 2) finally F end_try;
#elif SHAPE == 3
    try { body(); } catch (out_of_memory) H(0, 2) catch_any H(1, 2) catch (range_error) H(2, 2) finally F end_try;
#elif SHAPE == 4
    try { body(); } catch_if CI(0) finally F end_try;
#elif SHAPE == 5
    try { body(); } end_try;
#elif SHAPE == 6
    try { body(); } catch (out_of_memory) H(0, 2) catch_if CI(1) finally F end_try;
#elif SHAPE == 7
    try { body(); } finally F end_try;
#elif SHAPE == 8
    try { body(); } catch_any H(0, 2) end_try;
#elif SHAPE == 10
    try { body(); } catch_any { handler(0, 2, err, err_file, err_line); again = true; rethrow();  } end_try;
#elif SHAPE == 9
    try { body(); } catch_any H(0, 2) finally F end_trying;
#endif
    left();
}
