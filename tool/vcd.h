/* Contract runtime check: a driver defines vcd_trial(), which generates one input,
 * runs the real code on it and evaluates the contract against an independent oracle. */
#ifndef VCD_H
#define VCD_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "vcd_alloc.h"
extern int vcd_fork_each;                 /* driver: 1 = every trial in its own process */
void vcd_trial(uint64_t n);               /* driver */
uint64_t vcd_rnd(void);                   /* next random number of this trial */
static inline uint64_t vcd_below(uint64_t n) { return n ? vcd_rnd() % n : 0; }
uint64_t vcd_biased(void);                /* small, boundary and random values */
void vcd_note(const char *fmt, ...);      /* append to the description of the input */
void vcd_fail(const char *fmt, ...);
void vcd_end(void);                       /* end of this trial's process, successfully */
void vcd_expect_exit(int status);         /* this trial ends by exit(status), checked by the parent (vcd_fork_each) */
extern int *vcd_sh;                       /* 64 counters shared with the parent, zero before each process */
const char *vcd_after(int status) __attribute__((weak));   /* driver, in the parent: what is wrong after a process that exited */
#define VCD_CHECK(c, ...) do { if (!(c)) vcd_fail(__VA_ARGS__); } while (0)
extern long vcd_live, vcd_total, vcd_fail_at;   /* live blocks, allocations so far, 1-based number of the allocation to fail (0: none) */
extern size_t vcd_fail_over;              /* allocations larger than this fail (0: off) */
size_t vcd_block_size(const void *p);     /* requested size of a live block, (size_t)-1 if p is not the start of one */
int vcd_in_block(const void *p, size_t n);/* p..p+n lies in one live block */
void vcd_check_blocks(void);              /* canaries of all live blocks */
void vcd_leaks(const char *what);         /* fail if blocks are live */
char *vcd_str(const char *s, size_t n);   /* word-rounded copy of n bytes + nul, not counted as live */
#endif
