/* Random programs over exception blocks, guard sections and protected pointers, with an oracle that evaluates them by
 * the meaning of the constructs (no shared code with the library). */
#include "vcd.h"
#include "raii.h"
extern const char EX_NAME(out_of_memory)[], EX_NAME(range_error)[], EX_NAME(division_by_zero)[], EX_NAME(length_error)[], EX_NAME(panic)[];
EX_EXCEPTION(range_error_sub); EX_EXCEPTION(range_err); EX_EXCEPTION(range_errox);   /* names that share a prefix with another */
enum { EVENT, THROW, BLOCK, CALL, PROTECT, UNPROTECT, SETNULL, ASSIGN, DEFER, RECOVER, OWN, BREAK, DTHROW };
enum { NEXC = 8, MAXP = 12, NSHAPE = 7, GUARD = NSHAPE };
static const char *exn[NEXC + 1] = { NULL, EX_NAME(out_of_memory), EX_NAME(range_error), EX_NAME(division_by_zero), EX_NAME(length_error), EX_NAME(panic), EX_NAME(range_error_sub), EX_NAME(range_err), EX_NAME(range_errox) };
typedef struct prog { int n, re;   /* re: a handler that throws the exception again at its end */ struct op { int what, arg, val; struct blk_ *blk; struct prog *seq; } op[24]; } prog;
typedef struct blk_ { int shape, id; prog *body, *h[3], *fin; } blk;
static int with_guard, p_protect = 2, nid, dthrow;   /* dthrow: deferred functions of sections that own no memory may throw */
static void *bag[6000]; static int nbag;
static void *keep(size_t n) { void *p = calloc(1, n); if (nbag < 6000) bag[nbag++] = p; return p; }
static prog *gen_seq(int depth, int inblk, int inguard, int infin);
static blk *gen_blk(int depth)
{
    blk *b = keep(sizeof *b); int i; b->id = ++nid; b->shape = with_guard && vcd_below(2) ? GUARD : (int)vcd_below(NSHAPE);
    int dt = dthrow; dthrow = (int)vcd_below(3) == 0; b->body = gen_seq(depth + 1, 1, b->shape == GUARD, 0); dthrow = dt; for (i = 0; i < 3; i++) { b->h[i] = gen_seq(depth + 1, b->shape != GUARD, 0, 0); b->h[i]->re = vcd_below(3) == 0; } b->fin = gen_seq(depth + 2, 0, 0, 1);
    return b;
}
static prog *gen_seq(int depth, int inblk, int inguard, int infin)
{
    prog *p = keep(sizeof *p); int i, n = (int)vcd_below(depth > 3 ? 3 : inblk ? 9 : 4); p->n = n;
    for (i = 0; i < n; i++) {
        struct op *o = &p->op[i]; int r = (int)vcd_below(16); o->arg = ++nid; o->val = (int)vcd_below(MAXP);
        o->what = EVENT;
        if (r < 2) { o->what = THROW; o->arg = 1 + (int)vcd_below(NEXC); if (vcd_below(2) && i < n - 1) o->what = EVENT; }
        else if (r < 5 && depth < 5) { o->what = BLOCK; o->blk = gen_blk(depth); }
        else if (r < 6 && depth < 5) { o->what = CALL; o->seq = gen_seq(depth + 1, 0, 0, infin); }
        else if (r < 6 + 2 * p_protect && inblk && !inguard) o->what = PROTECT + (int)vcd_below(5) % 4;
        else if (r < 8 && inblk) o->what = PROTECT;
        else if (r < 12 && inguard) o->what = vcd_below(3) ? DEFER : RECOVER;
        else if (r < 14 && inguard) { o->what = dthrow ? DTHROW : OWN; }
        else if (r < 15 && inguard && vcd_below(3) == 0) o->what = BREAK;
        if (o->what == RECOVER || o->what == DTHROW) o->val = 1 + (int)vcd_below(NEXC);
    }
    return p;
}
/* ---- traces */
static int tr[2][4][20000], nt[2][4];     /* [real, oracle][events, releases] */
static void ev(int who, int k, int v) { if (nt[who][k] < 20000) tr[who][k][nt[who][k]++] = v; }
/* ---- oracle */
typedef struct { int n; int slot[400]; int val[MAXP]; } prots;    /* protections of the block, by slot, and the values of the variables */
static int o_blk(blk *b, prots *outer); static int vals;
typedef struct { int n; struct op *d[40]; } defers;
static int o_seq(prog *p, prots *f, defers *g, int *brk)
{
    int i, e, j;
    for (i = 0; i < p->n; i++) {
        struct op *o = &p->op[i];
        switch (o->what) {
        case EVENT: ev(1, 0, o->arg); break;
        case THROW: return o->arg;
        case BLOCK: if ((e = o_blk(o->blk, f))) return e; break;
        case CALL: if ((e = o_seq(o->seq, f, NULL, NULL))) return e; break;
        case PROTECT: if (!f) break; for (j = 0; j < f->n && f->slot[j] != o->val; j++); if (j < f->n) break; f->slot[f->n++] = o->val; f->val[o->val] = o->arg % 5 ? ++vals : 0; break;
        case UNPROTECT: if (!f) break; for (j = 0; j < f->n && f->slot[j] != o->val; j++); if (j < f->n) f->n = j; break;
        case SETNULL: if (f) f->val[o->val] = 0; break;
        case ASSIGN: if (f) f->val[o->val] = ++vals; break;
        case DEFER: case RECOVER: case DTHROW: if (g) g->d[g->n++] = o; break;
        case OWN: break;
        case BREAK: if (brk) { *brk = 1; return 0; } break;
        }
    }
    return 0;
}
static void o_release(prots *f) { while (f->n) { f->n--; if (f->val[f->slot[f->n]]) ev(1, 1, f->val[f->slot[f->n]]); } }
static int o_blk(blk *b, prots *outer)
{
    prots f = { 0 }; defers g = { 0 }; int brk = 0, e, seen, h = -1, rec = 0; (void)outer;
    if (b->shape == GUARD) {
        e = o_seq(b->body, &f, &g, &brk);
        if (e) o_release(&f);
        while (g.n) { struct op *o = g.d[--g.n]; if (o->what == DTHROW) { ev(1, 0, 600000 + o->arg); o_release(&f); e = o->val; rec = 0; continue; } int hit = o->what == RECOVER && e == o->val; ev(1, 0, o->what == RECOVER ? hit ? 300000 + o->arg : 400000 + o->arg : 500000 + o->arg); if (hit) rec = 1; }
        return rec ? 0 : e;
    }
    e = o_seq(b->body, &f, NULL, NULL); if (e) o_release(&f);
    seen = e;
    if (e) switch (b->shape) {
    case 0: h = e == 1 ? 0 : -1; break;
    case 1: h = e == 1 ? 0 : e == 2 ? 1 : 2; break;
    case 2: h = 0; break;
    case 3: h = e == 2 ? 0 : e == 3 ? 1 : -1; break;
    case 4: break;
    case 5: h = e == 5 ? 0 : -1; break;
    case 6: h = e == 4 ? 0 : e == 1 ? 1 : -1; break;
    }
    if (h >= 0) {
        ev(1, 0, 100000 + b->id * 10 + e);
        prots hf = { 0 }; memcpy(hf.val, f.val, sizeof f.val);
        int caught = e; e = o_seq(b->h[h], &hf, NULL, NULL); if (!e && b->h[h]->re) e = caught;
        if (e) { o_release(&hf); seen = e; }
    }
    if (b->shape != 1 && b->shape != 5) { ev(1, 0, 200000 + b->id * 10 + seen); int x = o_seq(b->fin, NULL, NULL, NULL); if (x) return x; }
    return e;
}
/* ---- the real thing */
typedef struct { int n; int slot[400]; void *val[MAXP]; ex_ptr_t node[MAXP]; } rprots;
static int rvals; static memory_t *gsc[64]; static int ngs, restored = 1;
static void rel(void *p) { ev(0, 1, (int)(intptr_t)p); }
static void r_blk(blk *b); static void r_guard(blk *b);
static void deferred(void *d) { struct op *o = d; ev(0, 0, 500000 + o->arg); }
static void recover(void *d)
{ struct op *o = d; VCD_CHECK(_get_message() == raii_message_by(raii_local()->arena), "the message of the section"); bool hit = o->val == 1 ? _is_caught(out_of_memory) : _recover(o->val == 5 ? "boom" : exn[o->val]); ev(0, 0, hit ? 300000 + o->arg : 400000 + o->arg); }
static int exline[NEXC + 1];
static void do_throw(int e)
{
    switch (e) {
    case 1: exline[1] = __LINE__; throw(out_of_memory); break;
    case 2: exline[2] = __LINE__; throw(range_error); break;
    case 3: exline[3] = __LINE__; throw(division_by_zero); break;
    case 4: exline[4] = __LINE__; throw(length_error); break;
    case 5: if (ngs & 1) { exline[5] = __LINE__; _panic("boom"); } exline[5] = __LINE__; raii_panic("boom"); break;
    case 6: exline[6] = __LINE__; throw(range_error_sub); break;
    case 7: exline[7] = __LINE__; throw(range_err); break;
    case 8: exline[8] = __LINE__; throw(range_errox); break;
    }
}
static int code(const char *e);
static void origin(const char *err, const char *file, int line, const char *fn, const char *panic)
{
    int e = code(err); VCD_CHECK(e == 5 ? panic && !strcmp(panic, "boom") : panic == NULL, "the message in the handler of %s", err);
    VCD_CHECK(line == exline[e] && file && !strcmp(file, __FILE__) && fn && !strcmp(fn, "do_throw"), "the handler of %s reads line %d of %s in %s, thrown at line %d of do_throw", err, line, file ? file : "(null)", fn ? fn : "(null)", exline[e]);
}
static void no_setup(ex_context_t *c, const char *e, const char *m) { (void)c; (void)e; (void)m; }
static void deferred_throw(void *d) { struct op *o = d; ev(0, 0, 600000 + o->arg); do_throw(o->val); }
#define ex_protected_node (f->node[o->val])
static int ndt;
static int r_seq(prog *p, rprots *f)
{
    int i, j;
    for (i = 0; i < p->n; i++) {
        struct op *o = &p->op[i];
        switch (o->what) {
        case EVENT: ev(0, 0, o->arg); break;
        case THROW: do_throw(o->arg); break;
        case BLOCK: { ex_context_t *c = ex_init(); if (o->blk->shape == GUARD) r_guard(o->blk); else r_blk(o->blk); if (ex_init() != c) restored = 0; break; }
        case CALL: r_seq(o->seq, f); break;
        case PROTECT: if (!f) break; for (j = 0; j < f->n && f->slot[j] != o->val; j++); if (j < f->n) break;
            f->slot[f->n++] = o->val; f->val[o->val] = (void *)(intptr_t)(o->arg % 5 ? ++rvals : 0); ex_protect_ptr(&f->node[o->val], &f->val[o->val], rel); break;
        case UNPROTECT: if (!f) break; for (j = 0; j < f->n && f->slot[j] != o->val; j++); if (j == f->n) break;
            f->n = j; if (o->arg & 1) unprotected(node); else ex_unprotected_ptr(&f->node[o->val]); break;
        case SETNULL: if (f) f->val[o->val] = NULL; break;
        case ASSIGN: if (f) f->val[o->val] = (void *)(intptr_t)++rvals; break;
        case DEFER: if (ngs) raii_deferred(raii_local()->arena, deferred, o); break;
        case RECOVER: if (ngs) { unique_t *_$__FUNCTION__ = raii_local()->arena; if (o->arg & 1) _defer(recover, o); else raii_recover_by(raii_local()->arena, recover, o); } break;
        case DTHROW: ndt++; if (ngs) raii_deferred(raii_local()->arena, deferred_throw, o); break;
        case OWN: if (ngs) { unique_t *_$__FUNCTION__ = raii_local()->arena; char *m; if (o->arg % 3 == 0) m = malloc_full(raii_local()->arena, 10 + o->val, RAII_FREE), memset(m, 1, 10 + o->val); else if (o->arg % 3 == 1) m = _malloc(10 + o->val), memset(m, 1, 10 + o->val); else { m = _calloc(1 + o->val, 3); for (j = 0; j < 3 * (1 + o->val); j++) VCD_CHECK(m[j] == 0, "_calloc(%d, 3): byte %d is %d", 1 + o->val, j, m[j]); memset(m, 1, 3 * (1 + o->val)); } } break;
        case BREAK: return 1;
        }
    }
    return 0;
}
static int code(const char *e) { int i; for (i = 1; i <= NEXC; i++) if (e == exn[i]) return i; return e ? 9 : 0; }
#define HANDLER(k) { origin(err, err_file, err_line, ex_err.function, ex_err.panic); ev(0, 0, 100000 + b->id * 10 + code(err)); memcpy(hf.val, f.val, sizeof f.val); hf.n = 0; r_seq(b->h[k], &hf); if (b->h[k]->re) rethrow(); }
#define FINALLY { ev(0, 0, 200000 + b->id * 10 + code(err)); r_seq(b->fin, NULL); }
static void r_blk(blk *b)
{
    rprots f, hf; memset(&f, 0, sizeof f); memset(&hf, 0, sizeof hf);
    switch (b->shape) {
    case 0: try { r_seq(b->body, &f); } catch (out_of_memory) HANDLER(0) finally FINALLY end_try; break;
    case 1: try { r_seq(b->body, &f); } catch (out_of_memory) HANDLER(0) catch (range_error) HANDLER(1) catch_any HANDLER(2) end_try; break;
    case 2: try { r_seq(b->body, &f); } catch_any HANDLER(0) finally FINALLY end_try; break;
    case 3: try { r_seq(b->body, &f); } catch_if { if (caught(range_error)) HANDLER(0) else if (caught(division_by_zero)) HANDLER(1) } finally FINALLY end_try; break;
    case 4: try { r_seq(b->body, &f); } finally FINALLY end_try; break;
    case 5: try { r_seq(b->body, &f); } catch_if { if (raii_caught("boom")) HANDLER(0) } end_try; break;
    case 6: try { r_seq(b->body, &f); } catch (length_error) HANDLER(0) catch_if { if (caught(out_of_memory)) HANDLER(1) } finally FINALLY end_try; break;
    }
}
/* the ways to write a section; a section left by break or _return tells so */
static int gbroke;
#define GBODY { _assign_ptr(mine); VCD_CHECK(mine == raii_local()->arena, "the scope of the section"); if (r_seq(b->body, f)) { gbroke = 1;
static int g_guarded(blk *b, rprots *f) { guard GBODY break; } gbroke = 0; } guarded; return 3; }
static int g_return(blk *b, rprots *f) { guard GBODY _return(7) } gbroke = 0; } guarded; return 3; }
static int g_unguarded(blk *b, rprots *f) guard GBODY break; } gbroke = 0; } unguarded(3)
static block(int, g_block, blk *b, rprots *f) GBODY _return(7) } gbroke = 0; } unblocked(3)
static void g_void_(blk *b, rprots *f) guard GBODY _return(NONE) } gbroke = 0; } unguarded(NONE)
static int g_void(blk *b, rprots *f) { g_void_(b, f); return 3; }
static void r_guard(blk *b)
{
    static int (*const form[])(blk *, rprots *) = { g_guarded, g_return, g_unguarded, g_block, g_void };
    rprots f; memset(&f, 0, sizeof f); void *ar = raii_init()->arena; ex_setup_func s = exception_setup_func; ex_unwind_func u = exception_unwind_func;
    int left = 0; (void)left; ngs++;
    int k = b->id % 5, t = ndt, r; gbroke = 0; r = form[k](b, &f);
    VCD_CHECK(r == 3 || (r == 7 && (k == 1 || k == 3)), "the section returns %d", r);
    if (gbroke && ndt == t && (k == 1 || k == 3)) VCD_CHECK(r == 7, "_return(7) of a section returns %d", r);
    gbroke = 0; ngs--; if (raii_local()->arena != ar || exception_setup_func != s || exception_unwind_func != u) restored = 0;
}
static void note_seq(prog *p);
static void note_blk(blk *b)
{ vcd_note(" %s%d{", b->shape == GUARD ? "guard" : "try", b->shape); note_seq(b->body); vcd_note(" }"); if (b->shape != GUARD) { int i; for (i = 0; i < 3; i++) { vcd_note(" h%d{", i); note_seq(b->h[i]); vcd_note(" }"); } vcd_note(" f{"); note_seq(b->fin); vcd_note(" }"); } }
static void note_seq(prog *p)
{
    static const char *w[] = { "", "throw", "", "", "protect", "unprotect", "null", "assign", "defer", "recover", "own", "break", "dthrow" }; int i;
    for (i = 0; i < p->n; i++) { struct op *o = &p->op[i]; if (o->blk) note_blk(o->blk); else if (o->what == CALL) { vcd_note(" call("); note_seq(o->seq); vcd_note(" )"); } else if (o->what != EVENT) vcd_note(" %s(%d)", w[o->what], o->what == THROW ? o->arg : o->val); }
}
static void ex_trial(int guards)
{
    sigset_t m0, m1; pthread_sigmask(SIG_SETMASK, NULL, &m0);
    int i, j, e, out = 0; nbag = 0; nid = 0; with_guard = guards; vals = rvals = 0; memset(nt, 0, sizeof nt); ngs = 0; restored = 1;
    raii_init(); if (vcd_below(2)) malloc_default(8);
    exception_setup_func = vcd_below(2) ? no_setup : NULL;   /* a hook of the program, outside of any section */
    blk *b = gen_blk(0); note_blk(b);
    e = o_blk(b, NULL);
    ex_context_t *top = ex_init(); long live;
    raii_deferred_clean(); live = vcd_live;
    try { if (b->shape == GUARD) r_guard(b); else r_blk(b); } catch_any { out = code(err); origin(err, err_file, err_line, ex_err.function, ex_err.panic); } end_try;
    static const char *what[] = { "events", "released pointers" };
    for (j = 0; j < 2; j++) {
        for (i = 0; i < nt[0][j] && i < nt[1][j]; i++) VCD_CHECK(tr[0][j][i] == tr[1][j][i], "%s: number %d is %d, expected %d", what[j], i, tr[0][j][i], tr[1][j][i]);
        VCD_CHECK(nt[0][j] == nt[1][j], "%s: %d, expected %d (next expected %d)", what[j], nt[0][j], nt[1][j], nt[1][j] > i ? tr[1][j][i] : 0);
    }
    VCD_CHECK(out == e, "exception %d leaves the program, expected %d", out, e);
    VCD_CHECK(ex_init() == top && restored, "the enclosing block, scope or hooks are not restored");
    VCD_CHECK(vcd_live == live, "%ld blocks of memory of the sections are not freed", vcd_live - live);
    pthread_sigmask(SIG_SETMASK, NULL, &m1); for (i = 1; i < 65; i++) VCD_CHECK(sigismember(&m0, i) == sigismember(&m1, i), "signal %d is blocked: %d, before: %d", i, sigismember(&m1, i), sigismember(&m0, i));
    exception_setup_func = NULL; vcd_check_blocks();
    for (i = 0; i < nbag; i++) free(bag[i]);
}
