/* C17: concatenation */
#include "vcd.h"
#include <stdarg.h>
#include "raii.h"
int vcd_fork_each = 0;
static char *cat(memory_t *m, int n, ...) { va_list ap; char *r; va_start(ap, n); r = str_concat_ex(m, n, ap); va_end(ap); return r; }
void vcd_trial(uint64_t n)
{
    char *s[8], *c[8]; static char w[600000], t[70201]; int k = (int)vcd_below(9), i; size_t o = 0, j;
    for (i = 0; i < 8; i++) {
        size_t l = n % 3000 == 77 ? 200 + vcd_below(n % 2000 < 1000 ? 1000 : 70000) : vcd_below(4) ? vcd_below(12) : vcd_below(3) ? 0 : vcd_below(100);
        for (j = 0; j < l; j++) t[j] = (char)(1 + vcd_below(255)); t[l] = 0;
        s[i] = vcd_str(t, l); c[i] = strdup(t);
        if (i < k) { memcpy(w + o, t, l); o += l; vcd_note("length %zu, ", l); }
    }
    w[o] = 0;
    memory_t *m = n & 1 ? unique_init() : NULL; int mode = (int)vcd_below(2); long live = vcd_live;
    if (!m && mode) { raii_init(); live = vcd_live; }
#define A s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]
    char *r = m ? cat(m, k, A) : mode ? raii_concat(k, A) : cat(NULL, k, A);
    VCD_CHECK(r != NULL && vcd_block_size(r) == o + 1, "block of %zu bytes for %zu", vcd_block_size(r), o);
    VCD_CHECK(!memcmp(r, w, o + 1), "wrong text");
    for (i = 0; i < 8; i++) VCD_CHECK(!strcmp(s[i], c[i]), "an input is modified");
    vcd_check_blocks();
    if (m) { raii_delete(m); VCD_CHECK(vcd_block_size(r) == (size_t)-1, "the block is not released with its scope"); }
    else if (!mode) vcd_free(r);
    else { raii_deferred_clean(); VCD_CHECK(vcd_block_size(r) == (size_t)-1, "the block is not released with its scope"); }
    for (i = 0; i < 8; i++) { free(s[i]); free(c[i]); }
}
