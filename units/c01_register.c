/*@vc
prop C01
src raii.c
func raii_deferred raii_deferred_count raii_defer raii_recover raii_recover_by raii_deferred_any raii_array_append realloc_array raii_array_init
stub raii_destroy
unwind 2
cases KIND 0 5
doc registering (all four functions, on the thread scope and on a heap scope) with any list of n < 2^40 entries: the new entry is stored
\ at index n, every earlier entry (index gk arbitrary) is unchanged also when the list is moved, every access is inside the list block,
\ a failed growth leaves the list as it was, nothing else of the scope changes; a scope that was released is armed again
assume realloc copies the old content into the new block or returns null leaving the old block; lists have fewer than 2^40 entries
@*/
#include "vc.h"
#include "raii.h"
void raii_destroy(void) { }
static void cb(void *d) { (void)d; }
#include "vc_list.h"
#include "src_raii.c"
void harness(void)
{
    defer_func_t ek; int chk = 0;
    scope_any(KIND >= 4);
    bool armed = nd_bool();
    if (!armed) { memset(L, 0, sizeof *L); gB = NULL; gn = 0; }
    if (gk < gn) ek = ENT(gk);
    size_t by = nd_size(); ASSUME(by < sizeof(memory_t) && (by < offsetof(memory_t, defer) || by >= offsetof(memory_t, defer) + sizeof(defer_t)));
    unsigned char bv = ((unsigned char *)S)[by];
    void *data = (void *)nd_size(); size_t r = gn;
    bool fits = gn % 16 != 0;
    if (KIND == 0 || KIND == 4) r = raii_deferred(S, cb, data);
    else if (KIND == 1 || KIND == 5) { raii_recover_by(S, cb, data); chk = 1; }
    else if (KIND == 2) r = raii_defer(cb, data);
    else { raii_recover(cb, data); chk = 1; }
    CHECK(((unsigned char *)S)[by] == bv, "nothing else of the scope changes");
    CHECK(raii_deferred_count(S) == L->elements, "the number of registrations is told");
    CHECK(L->elements == gn || L->elements == gn + 1, "at most one entry is added");
    CHECK(WF(), "the list is well formed");
    CHECK(gk >= gn || SAMEENT(ENT(gk), ek), "earlier registrations are unchanged");
    CHECK(!fits || L->elements == gn + 1, "registering in a list with room succeeds");
    if (L->elements == gn + 1) {
        CHECK(r == gn, "the index of the registration is returned");
        CHECK(ENT(gn).func == cb && ENT(gn).data == data && (ENT(gn).check != NULL) == chk, "function and data are registered");
        REACH("registered");
        if (gn == 32 && nrealloc == 1) REACH("registered in a grown list");
        if (!armed) REACH("re-armed");
    } else { CHECK(chk || r == (size_t)-1, "failure is reported"); CHECK(nrealloc == 1, "only a failed growth fails"); REACH("growth failed"); }
}
