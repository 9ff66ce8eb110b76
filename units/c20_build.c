/*@vc
prop C20
src raii.c
func raii_args_ex
stub simd_strlen try_calloc
nloops raii_args_ex 1
loop raii_args_ex 0
 ptr desc=gdesc
 obj params->args gblk
 havoc i s len argp params->args_size blk cur nblk
 inv i <= N && SAME(desc, gdesc) && OFF(desc) == i && argp.pos == i && argp.live && params == P && params->args == A
 inv gk >= i ==> A[gk].extended == NULL && nblk == 0 && gblk[gl] == 0
 inv gk < i ==> given(A, gs)
 begin if (i < N) ASSUME(gdesc[i] != 0);
 dec (long)(N - i)
unwind 2
timeout 600
doc raii_args_ex on any format (below 2^31 characters) and arguments: every argument is taken once, in order, as the type its letter stands for; the container knows the scope, the number of arguments and holds for position gk (arbitrary) exactly the argument passed there; a string is held by its text (byte gb arbitrary), terminated, either the caller's or a copy in a block of its own recorded in the position; every write is inside the blocks of the container
assume va_arg yields the arguments in order, memcpy copies exactly its bytes; simd_strlen (c13_strlen), try_calloc (c03_try); memory blocks below 2^40 bytes
@*/
#include "vc.h"
#include "vc_va.h"
#include "raii.h"
static char *gdesc, *gs, *blk; static size_t N, gk, gb, gl; static struct args_s *P; static raii_values_t *A; static int np, na, nblk; static size_t cur; static char *gblk;
static char fk; static uint64_t argk, cell; static memory_t M;
size_t __CPROVER_uninterpreted_len(size_t);
static void *vc_arg(va_list *ap)
{
    size_t i = ap->pos++; CHECK(ap->live && i < N, "no more arguments are taken than the format names");
    char f = gdesc[i]; cur = i;
    CHECK(vc_arg_size == (f == 'u' || f == 'i' || f == 'c' ? 4 : 8) && vc_arg_fp == (f == 'f'), "the argument is taken as the type its letter stands for");
    cell = i == gk ? argk : f == 's' ? ((uint64_t)1 << 44) + i : nd_u64();
    return &cell;
}
size_t simd_strlen(const char *s)
{
    if (s == gdesc) return N;
    if (s == gs && gs) return gl;
    size_t i = (size_t)s - ((size_t)1 << 44); CHECK(i < N && i != gk, "the length of the argument");
    size_t l = __CPROVER_uninterpreted_len(i); ASSUME(l < ((size_t)1 << 40)); return l;
}
void *try_calloc(int count, size_t size)
{
    if (nd_bool()) ASSUME(0);   /* panics, c03_try */
    if (!np) { CHECK(count == 1 && size == sizeof(struct args_s), "the container"); np++; P = vc_new(sizeof(struct args_s), 1); ASSUME(P != NULL); return P; }
    if (!na) { CHECK((size_t)count == N && size == sizeof(raii_values_t), "one element for every argument"); na++; A = vc_new(N * sizeof(raii_values_t), 1); ASSUME(A != NULL); return A; }
    CHECK(count == 1, "one text");
    if (cur == gk) { CHECK(nblk == 0 && size == gl + 1, "one block for the text, with room for the terminator"); nblk++; return blk = gblk; }
    blk = vc_new(size, 1); ASSUME(blk != NULL); return blk;
}
void *vcm_cpy(void *d, const void *s, size_t k)
{
    CHECK(d == blk && d && OBJSZ(d) == k + 1 && (cur == gk) == (s == gs && gs), "the text is copied into its block, with room for the terminator");
    CHECK(k == simd_strlen(s), "the whole text");
    if (cur == gk && gb < gl) gblk[gb] = gs[gb];
    return d;
}
/* what position gk has to hold */
static bool given(raii_values_t *a, char *s)
{
    values_type *v = &a[gk].value;
    switch (fk) {
    case 'l': return v->s_long == (long)argk && !a[gk].extended;
    case 'z': return v->max_size == (size_t)argk && !a[gk].extended;
    case 'u': return v->u_int == (unsigned)argk && !a[gk].extended;
    case 'i': return v->integer == (int)argk && !a[gk].extended;
    case 'd': return v->long_long == (int64_t)argk && !a[gk].extended;
    case 'c': return v->schar == (signed char)argk && !a[gk].extended;
    case 'f': return *(uint64_t *)&v->precision == argk && !a[gk].extended;
    case 's': if (v->char_ptr == s) return !a[gk].extended;
        return nblk == 1 && v->char_ptr == gblk && a[gk].extended == gblk && (gb >= gl || gblk[gb] == s[gb]) && gblk[gl] == 0;
    }
    return v->object == (void *)argk && !a[gk].extended;
}
#undef memcpy
#define memcpy vcm_cpy
#include "vc_loops.h"
#include "src_raii.c"
void harness(void)
{
    N = nd_size(); gk = nd_size(); gb = nd_size(); gl = nd_size(); ASSUME(N < ((size_t)1 << 31) && gk < N && gl < ((size_t)1 << 40));
    gdesc = vc_new(N + 1, 0); ASSUME(gdesc && gdesc[N] == 0); vc_reg(gdesc, N + 1); fk = gdesc[gk]; ASSUME(fk != 0);
    argk = nd_u64(); if (fk == 's') { gs = vc_new(gl + 1, 0); ASSUME(gs && gs[gl] == 0 && (gb >= gl || gs[gb] != 0)); vc_reg(gs, gl + 1); argk = (uint64_t)gs; }
    gblk = vc_new(gl + 1, 1); ASSUME(gblk != NULL);
    char t = fk == 's' && gb < gl ? gs[gb] : 0;
    memory_t *m = nd_bool() ? &M : NULL; va_list ap; ap.pos = 0; ap.live = true;
    args_t r = raii_args_ex(m, gdesc, ap);
    CHECK(r == P && r && r->args == A && np == 1 && na == 1, "the container is returned");
    CHECK(r->type == RAII_ARGS && r->n_args == N && r->context == m && !r->defer_set && !r->is_returning, "it knows its arguments and scope and is not registered");
    CHECK(given(r->args, gs), "the position holds the argument passed there");
    if (fk == 's' && gb < gl) CHECK(gs[gb] == t && (r->args[gk].value.char_ptr == gs || gblk[gb] == t), "the text of the string");
    REACH("built"); if (fk == 's' && gl > 1000 && gk > 5 && N > 10) REACH("long string"); if (fk == 'f') REACH("number"); if (fk == 'q') REACH("other");
}
