/*@vc
prop C20
src raii.c
func args_free
nloops args_free 1
loop args_free 0
 havoc i nk
 inv i <= N && nk == (gk < i ? 1 : 0)
 begin other(i);
 dec (long)(N - i)
unwind 2
timeout 600
doc args_free on a container of any number of arguments: the text copied for position gk (arbitrary) is freed exactly once, then the array, then the container, each once; anything that is not a container is left alone
assume the blocks of the container are distinct
@*/
#include "vc.h"
#include "raii.h"
static struct args_s *P; static raii_values_t *A; static char *ext; static size_t N, gk; static int nk, na, np;
static void other(size_t i) { if (i < N && i != gk) ASSUME((A[i].extended != ext || ext == NULL) && A[i].extended != (void *)A && A[i].extended != (void *)P); }
void vc_free(void *p)
{
    if (p == (void *)P) { CHECK(np == 0 && na == 1, "the container is freed once, last"); np++; }
    else if (p == (void *)A) { CHECK(na == 0 && (gk >= N || nk == 1), "the array is freed once, after the texts"); na++; }
    else { CHECK(na == 0 && np == 0, "texts are freed first"); if (p == ext && ext) nk++; else if (!p && !ext && gk < N) nk = -1; }
}
#include "vc_loops.h"
#include "src_raii.c"
void harness(void)
{
    P = vc_new(sizeof *P, 0); N = nd_size(); gk = nd_size(); ASSUME(P && N < ((size_t)1 << 31) && gk < N);
    A = vc_new(N * sizeof(raii_values_t), 0); ext = vc_new(nd_size() >> 20, 0); ASSUME(A && ext);
    P->args = A; P->n_args = N; A[gk].extended = ext;
    P->type = nd_bool() ? RAII_ARGS : (raii_type)nd_u32(); bool is = P->type == RAII_ARGS;
    args_free(P);
    CHECK(nk == is && na == is && np == is, "everything is freed exactly once");
    if (is && gk > 100) REACH("freed"); if (!is) REACH("no container");
}
