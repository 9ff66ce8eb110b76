/* C18: Base64 encoding */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
void vcd_trial(uint64_t n)
{
    static unsigned char t[70300]; size_t l = n < 300 ? n : n % 3000 == 77 ? 200 + vcd_below(n % 2000 < 1000 ? 1000 : 70000) : vcd_below(vcd_below(8) ? 30 : 600), i, o = 0; static char w[100000];
    for (i = 0; i < l; i++) t[i] = (unsigned char)(1 + vcd_below(255)); t[l] = 0;
    vcd_note("length %zu bytes ", l); for (i = 0; i < l && i < 40; i++) vcd_note("%02x", t[i]);
    for (i = 0; i < l; i += 3) {
        unsigned v = t[i] << 16 | (i + 1 < l ? t[i + 1] << 8 : 0) | (i + 2 < l ? t[i + 2] : 0);
        w[o++] = T[v >> 18]; w[o++] = T[v >> 12 & 63]; w[o++] = i + 1 < l ? T[v >> 6 & 63] : '='; w[o++] = i + 2 < l ? T[v & 63] : '=';
    }
    w[o] = 0;
    char *s = vcd_str((char *)t, l); memory_t *m = n & 1 ? unique_init() : NULL;
    unsigned char *r = m ? str_encode64_ex(m, (u_string_t)s) : raii_encode64((u_string_t)s);
    VCD_CHECK(r != NULL && !strcmp((char *)r, w), "encoding gives \"%.60s\", expected \"%.60s\"", (char *)r, w);
    VCD_CHECK(vcd_in_block(r, o + 1), "the result does not fit its block");
    VCD_CHECK(!memcmp(s, t, l + 1), "the input is modified");
    vcd_check_blocks();
    if (m) raii_delete(m); else { raii_deferred_clean(); }
    free(s);
}
