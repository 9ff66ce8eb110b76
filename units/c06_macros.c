/*@vc
prop C06
src except.c
stub ex_throw
unwind 40
timeout 100
doc the throw macros, expanded at a use: throw(E) throws exactly the exception E by its name, without a message, raii_panic(m) the exception panic with exactly the message m; both tell the file, the line and the function they stand in, and no captured backtrace; throw_loc the place it is given
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
#include "src_except.c"
EX_EXCEPTION(my_own_exception);
static int n, line, kind; static const char *m, *fl, *fu;
static bool same(const char *a, const char *b) { int i; for (i = 0; a[i] && a[i] == b[i]; i++); return a[i] == b[i]; }
void ex_throw(string_t ex, string_t file, int l, string_t fn, string_t msg, ex_backtrace_t *bt)
{
    n++; CHECK(ex && same(ex, kind == 0 ? "out_of_memory" : kind == 1 ? "my_own_exception" : kind == 2 ? "panic" : "range_error"), "the exception thrown is the one named"); CHECK(kind == 2 ? msg == m : msg == NULL, "its message is the one given");
    CHECK(l == line, "the line of the throw"); if (kind == 3) CHECK(file == fl && fn == fu, "the place given"); else CHECK(file && same(file, __FILE__) && fn && same(fn, "thrower"), "its file and function"); CHECK(kind == 3 || bt == NULL, "the backtrace is taken here"); REACH("thrown");
}
static void thrower(void)
{
    switch (kind) {
    case 0: line = __LINE__; throw(out_of_memory); break;
    case 1: line = __LINE__; throw(my_own_exception); break;
    case 2: line = __LINE__; raii_panic(m); break;
    default: line = nd_i32(); ex_throw_loc(range_error, fl, line, fu, (void *)nd_size());
    }
}
void harness(void) { kind = nd_i32(); ASSUME(kind >= 0 && kind <= 3); m = (char *)nd_size(); fl = (char *)nd_size(); fu = (char *)nd_size(); thrower(); CHECK(n == 1, "thrown once"); }
