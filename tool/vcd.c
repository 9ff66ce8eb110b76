#include "vcd.h"
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/wait.h>

struct shared { uint64_t trial; size_t nlen; char note[8192]; int failed; char fail[1024]; uint64_t done; int expect, expect_set; unsigned char seen[1 << 17]; uint64_t distinct; int sh[64]; };
static struct shared *S;
static uint64_t seed0, st;
int *vcd_sh; const char *vcd_after(int status) __attribute__((weak));
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t vcd_rnd(void) { st += 0x9e3779b97f4a7c15ull; uint64_t z = st; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t vcd_biased(void)
{
    switch (vcd_rnd() % 6) {
    case 0: return vcd_rnd() % 20;
    case 1: return (uint64_t)1 << (vcd_rnd() % 64);
    case 2: return ((uint64_t)1 << (vcd_rnd() % 64)) - 1 + vcd_rnd() % 3 - 1;
    case 3: { uint64_t p = 1; int k = (int)(vcd_rnd() % 20); while (k--) p *= 10; return p + vcd_rnd() % 3 - 1; }
    case 4: return vcd_rnd() >> (vcd_rnd() % 64);
    default: return vcd_rnd();
    }
}
void vcd_note(const char *fmt, ...)
{
    va_list ap; int k; size_t room = sizeof(S->note) - S->nlen;
    if (room < 2) return;
    va_start(ap, fmt); k = vsnprintf(S->note + S->nlen, room, fmt, ap); va_end(ap);
    if (k > 0) S->nlen += (size_t)k < room ? (size_t)k : room - 1;
}
void vcd_fail(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vsnprintf(S->fail, sizeof S->fail, fmt, ap); va_end(ap);
    S->failed = 1; _exit(9);
}
static void account(void)
{
    uint64_t h = 1469598103934665603ull; size_t i;
    for (i = 0; i < S->nlen; i++) h = (h ^ (unsigned char)S->note[i]) * 1099511628211ull;
    h = mix(h);
    uint32_t b = (uint32_t)(h & ((1u << 20) - 1));
    if (!(S->seen[b >> 3] >> (b & 7) & 1)) { S->seen[b >> 3] |= (unsigned char)(1 << (b & 7)); S->distinct++; }
    S->done++;
}
void vcd_end(void) { account(); _exit(0); }
void vcd_expect_exit(int status) { S->expect = status; S->expect_set = 1; account(); }

/* allocator with canaries, failure injection and accounting */
struct blk { struct blk *prev, *next; size_t size; uint64_t magic; };
static struct blk head = { &head, &head, 0, 0 };
long vcd_live, vcd_total, vcd_fail_at; size_t vcd_fail_over;
static volatile int lk;
static void lock(void) { while (__sync_lock_test_and_set(&lk, 1)) usleep(10); }
static void unlock(void) { __sync_lock_release(&lk); }
#define MAGIC 0xfeedfacecafef00dull
static void canary(struct blk *b)
{
    unsigned char *p = (unsigned char *)(b + 1); size_t i, pad = 8 + (8 - b->size % 8) % 8;
    for (i = 0; i < pad; i++) if (p[b->size + i] != 0xA5) vcd_fail("write past the end of a block of %zu bytes", b->size);
}
static void *get(size_t n, int zero)
{
    struct blk *b; unsigned char *p; size_t pad = 8 + (8 - n % 8) % 8;
    lock(); vcd_total++; long t = vcd_total; unlock();
    if (vcd_fail_at && t == vcd_fail_at) return NULL;
    if ((vcd_fail_over && n > vcd_fail_over) || n > ((size_t)1 << 32)) return NULL;
    b = malloc(sizeof *b + n + pad);
    if (!b) return NULL;
    p = (unsigned char *)(b + 1);
    memset(p, zero ? 0 : 0xCD, n); memset(p + n, 0xA5, pad);
    b->size = n; b->magic = MAGIC;
    lock(); b->next = head.next; b->prev = &head; head.next->prev = b; head.next = b; vcd_live++; unlock();
    return p;
}
void *vcd_malloc(size_t n) { return get(n, 0); }
void *vcd_memalign(size_t a, size_t n) { (void)a; return get(n, 0); }
void *vcd_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return NULL; return get(a * b, 1); }
static struct blk *find(const void *p)
{ struct blk *b; for (b = head.next; b != &head; b = b->next) if ((void *)(b + 1) == p) return b; return NULL; }
void vcd_free(void *p)
{
    struct blk *b;
    if (!p) return;
    lock(); b = find(p);
    if (!b) { unlock(); vcd_fail("free of something that is not a live block"); }
    b->prev->next = b->next; b->next->prev = b->prev; vcd_live--; unlock();
    canary(b);
    memset(p, 0xDD, b->size);
    free(b);
}
void *vcd_realloc(void *p, size_t n)
{
    void *q;
    if (!p) return get(n, 0);
    lock(); struct blk *b = find(p); unlock();
    if (!b) vcd_fail("realloc of something that is not a live block");
    q = get(n, 0);
    if (!q) return NULL;
    memcpy(q, p, b->size < n ? b->size : n);
    vcd_free(p);
    return q;
}
size_t vcd_block_size(const void *p) { lock(); struct blk *b = find(p); size_t r = b ? b->size : (size_t)-1; unlock(); return r; }
int vcd_in_block(const void *p, size_t n)
{ struct blk *b; int r = 0; lock(); for (b = head.next; b != &head && !r; b = b->next) if ((char *)p >= (char *)(b + 1) && (char *)p + n <= (char *)(b + 1) + b->size) r = 1; unlock(); return r; }
void vcd_check_blocks(void) { struct blk *b; for (b = head.next; b != &head; b = b->next) canary(b); }
void vcd_leaks(const char *what) { if (vcd_live) vcd_fail("%s: %ld blocks are never freed (first of %zu bytes)", what, vcd_live, head.next->size); }
char *vcd_str(const char *s, size_t n)
{ char *p = aligned_alloc(8, n / 8 * 8 + 8); memset(p, 0x5a, n / 8 * 8 + 8); memcpy(p, s, n); p[n] = 0; return p; }

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void on_alarm(int s) { (void)s; }
int main(int argc, char **argv)
{
    uint64_t n = 0, only = (uint64_t)-1; double secs = argc > 2 ? atof(argv[2]) : 5, t0 = now(); int batch, status;
    seed0 = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    if (argc > 3) only = strtoull(argv[3], 0, 10);
#ifdef VCD_EXEC /* each batch in a program of its own (a thread sanitizer does not follow fork) */
    int shm = open("vcd.shm", O_RDWR | O_CREAT, 0600); if (shm < 0 || ftruncate(shm, sizeof *S)) return 3;
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, shm, 0);
#else
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#endif
    vcd_sh = S->sh;
    { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, NULL); }
    batch = vcd_fork_each ? 1 : 5000;
    if (only != (uint64_t)-1) { n = only; batch = 1; }
    do {
        fflush(stdout); fflush(stderr);
        S->expect_set = 0; memset(S->sh, 0, sizeof S->sh);
        int child = argc > 4;
#ifdef VCD_EXEC
        pid_t p = child ? 0 : fork();
        if (p == 0 && !child) {
            char t[32]; snprintf(t, sizeof t, "%llu", (unsigned long long)n); char *av[] = { argv[0], argv[1], argv[2], t, (char *)(batch > 1 ? "+" : "1"), NULL };
            execv("/proc/self/exe", av); _exit(3);
        }
        if (child && *argv[4] == '+') batch = 5000;
#else
        pid_t p = fork();
#endif
        if (p == 0) {
            int k;
            signal(SIGALRM, SIG_DFL);
            if (!freopen("driver.log", "w", stderr)) {}
            if (!freopen("/dev/null", "w", stdout)) {}
            for (k = 0; k < batch; k++) {
                S->trial = n + k; S->nlen = 0; S->note[0] = 0; S->failed = 0;
                st = mix(mix(seed0) + n + k);
                alarm(20);
                vcd_trial(n + k);
                account();
                if (now() - t0 > secs) break;
            }
            fflush(stderr);
            _exit(0);
        }
        int hung = 0; /* also when the child blocks every signal */
        alarm((vcd_fork_each ? 0 : (unsigned)secs) + 25);
        while (waitpid(p, &status, 0) < 0 && errno == EINTR) { hung = 1; kill(p, SIGKILL); }
        alarm(0);
        if (vcd_after && !S->failed && WIFEXITED(status)) { const char *w = vcd_after(WEXITSTATUS(status)); if (w) { snprintf(S->fail, sizeof S->fail, "%s", w); S->failed = 1; } }
        int bad = !(WIFEXITED(status) && WEXITSTATUS(status) == (S->expect_set ? S->expect : 0)) || S->failed;
        if (bad) {
            printf("VCD-FAIL trial=%llu seed=%llu: %s\n", (unsigned long long)S->trial, (unsigned long long)seed0,
                   S->failed ? S->fail : WIFSIGNALED(status) ? (WTERMSIG(status) == SIGALRM || hung ? "does not terminate" : "killed by a signal") : "unexpected exit");
            if (WIFSIGNALED(status)) printf("signal %d\n", WTERMSIG(status));
            if (WIFEXITED(status)) printf("exit status %d (77 address sanitizer, 78 undefined behaviour)\n", WEXITSTATUS(status));
            printf("input: %s\n", S->note);
            FILE *f = fopen("driver.log", "r"); char line[512]; int l = 0;
            if (f) { while (l++ < 30 && fgets(line, sizeof line, f)) fputs(line, stdout); fclose(f); }
            printf("VCD trials=%llu distinct=%llu\n", (unsigned long long)S->done, (unsigned long long)S->distinct);
            return 1;
        }
        n += batch;
    } while (only == (uint64_t)-1 && now() - t0 < secs);
    printf("VCD trials=%llu distinct=%llu\n", (unsigned long long)S->done, (unsigned long long)S->distinct);
    return 0;
}
/* the allocator library itself is not under check */
int rpmalloc_init(void) { return 0; }
void rpmalloc_thread_finalize(int x) { (void)x; }
#ifdef VCD_EXEC /* threads the sanitizer knows of */
#include <pthread.h>
#include <stdlib.h>
struct vcd_thr { int (*f)(void *); void *a; };
static void *vcd_thr_run(void *x) { struct vcd_thr t = *(struct vcd_thr *)x; free(x); return (void *)(intptr_t)t.f(t.a); }
int thrd_create(pthread_t *t, int (*f)(void *), void *a)
{
    struct vcd_thr *x = malloc(sizeof *x); if (!x) return 3; x->f = f; x->a = a;
    return pthread_create(t, NULL, vcd_thr_run, x) ? 2 : 0;
}
int thrd_join(pthread_t t, int *r) { void *v; if (pthread_join(t, &v)) return 2; if (r) *r = (int)(intptr_t)v; return 0; }
int thrd_detach(pthread_t t) { return pthread_detach(t) ? 2 : 0; }
void thrd_exit(int r) { pthread_exit((void *)(intptr_t)r); }
#endif
