/*@vc
prop C05 C08
src raii.c
func raii_caught raii_is_caught raii_message raii_message_by raii_local
stub is_str_eq is_empty
unwind 2
timeout 300
doc caught(E) is true exactly when the exception recorded in the active block has that message or name (without one, when the scope's has), and exactly then marks the block handled; raii_message reads its message, else its name; raii_is_caught decides by the message, else the name, of the given scope, marks it recovered or not and the active block handled exactly if so; nothing else changes
@*/
#include "vc.h"
#include "raii.h"
#include "vc_loops.h"
static ex_context_t C; static memory_t S, T; static char q[2], name[2], msg[2], sname[2], smsg[2]; static bool eqn, eqm, eqsn, eqsm;
bool is_empty(void *p) { return p == NULL; }                                   /* c24_types */
bool is_str_eq(const char *a, const char *b)                                   /* c13_eq: equal non-null strings; the four strings are any, so equality is an arbitrary but fixed function of them */
{
    const char *o = a == q ? b : a; CHECK(a == q || b == q, "compared with the name asked for"); if (!a || !b) return false;
    if (o == name) return eqn; if (o == msg) return eqm; if (o == sname) return eqsn; if (o == smsg) return eqsm;
    CHECK(0, "compared with the exception"); return false;
}
ex_context_t *ex_init(void) { return &C; }
ex_context_t *ex_local(void) { return &C; }
#include "src_raii.c"
void harness(void)
{
    eqn = nd_bool(); eqm = nd_bool(); eqsn = nd_bool(); eqsm = nd_bool();
    C.ex = nd_bool() ? name : NULL; C.panic = C.ex && nd_bool() ? msg : NULL; C.state = nd_i32(); C.next = (void *)nd_size(); C.type = nd_i32(); C.stack = (void *)nd_size();
    S.err = nd_bool() ? sname : NULL; S.panic = nd_bool() ? smsg : NULL; S.is_recovered = nd_bool(); S.is_protected = nd_bool(); S.arena = &T; T = S;
    bool ts = nd_bool(); thrd_raii_tls = ts ? &S : NULL;
    ex_context_t o = C; memory_t os = S;
    const char *m = C.ex ? (C.panic ? msg : name) : ts ? (S.panic ? smsg : S.err) : NULL;
    CHECK(raii_message() == m, "message, else name");
    CHECK(C.state == o.state && S.is_recovered == os.is_recovered, "reading changes nothing");
    bool hit = C.ex ? eqn || (C.panic && eqm) : ts && (S.panic ? eqsm : S.err && eqsn);
    int how = nd_i32();
    if (how == 0) {
        CHECK(raii_caught(q) == hit, "caught exactly when the exception has that message or name");
        CHECK(C.state == (hit ? ex_catch_st : o.state), "marked handled exactly then");
        CHECK(!ts || S.is_recovered == hit, "the scope is recovered or not");
        if (hit && C.panic && eqm) REACH("by message"); if (hit && C.panic && !eqm) REACH("by name"); if (hit && !C.ex) REACH("by scope"); if (!hit) REACH("another");
    } else {
        bool h2 = T.panic ? eqsm : T.err && eqsn;
        CHECK(raii_message_by(&T) == (T.panic ? smsg : T.err), "message of the scope, else name");
        CHECK(raii_is_caught(&T, q) == h2, "caught exactly when the scope's exception is that");
        CHECK(T.is_recovered == h2 && C.state == (h2 ? ex_catch_st : o.state), "recovered, and the block handled, exactly then");
        CHECK(T.err == os.err && T.panic == os.panic && T.is_protected == os.is_protected && S.is_recovered == os.is_recovered, "nothing else changes");
        if (h2) REACH("recovered"); else REACH("not recovered");
    }
    CHECK(C.ex == o.ex && C.panic == o.panic && C.next == o.next && C.type == o.type && C.stack == o.stack && S.err == os.err && S.panic == os.panic && S.arena == os.arena && S.is_protected == os.is_protected, "nothing else changes");
}
