/* C19: Base64 decoding */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int val(int c) { const char *p; if (c == '=') return 0; if (!c) return -1; p = strchr(T, c); return p ? (int)(p - T) : -1; }
static int ref(const unsigned char *s, unsigned char *o, size_t *on)
{
    size_t c = 0, i; unsigned b[4]; int k = 0, pad = 0; *on = 0;
    for (i = 0; s[i]; i++) c += val(s[i]) >= 0;
    if (c == 0 || c % 4) return 0;
    for (i = 0; s[i]; i++) {
        if (val(s[i]) < 0) continue;
        pad += s[i] == '='; b[k++] = (unsigned)val(s[i]);
        if (k == 4) {
            unsigned v = b[0] << 18 | b[1] << 12 | b[2] << 6 | b[3]; k = 0;
            if (pad > 2) return 0;
            o[(*on)++] = (unsigned char)(v >> 16); if (pad < 2) o[(*on)++] = (unsigned char)(v >> 8); if (pad < 1) o[(*on)++] = (unsigned char)v;
            if (pad) return 1;
        }
    }
    return 1;
}
void vcd_trial(uint64_t n)
{
    static unsigned char t[70300], w[70300]; size_t l = n % 3000 == 77 ? 200 + vcd_below(n % 2000 < 1000 ? 1000 : 70000) : vcd_below(vcd_below(6) ? 20 : 200), i, wn; int kind = (int)vcd_below(4), all = 1;
    for (i = 0; i < l; i++) {
        int q = (int)vcd_below(20);
        t[i] = (unsigned char)(kind == 0 ? 1 + vcd_below(255) : kind == 1 || q > 3 ? T[vcd_below(64)] : q == 0 ? '=' : q == 1 ? '\n' : T[vcd_below(64)]);
    }
    if (kind == 1 && vcd_below(2)) l = l / 4 * 4;
    if (l > 4 && kind < 3 && vcd_below(2)) for (i = vcd_below(4); i > 0; i--) t[l - i] = '=';
    t[l] = 0;
    vcd_note("text \""); for (i = 0; i < l; i++) vcd_note(t[i] >= 32 && t[i] < 127 ? "%c" : "\\x%02x", t[i]); vcd_note("\"");
    char *s = vcd_str((char *)t, l); memory_t *m = n & 1 ? unique_init() : NULL;
    for (i = 0; i < l; i++) all &= val(t[i]) >= 0;
    VCD_CHECK(is_base64((u_string_t)s) == (bool)all, "is_base64 should be %d", all);
    unsigned char *r = m ? str_decode64_ex(m, (u_string_t)s) : raii_decode64((u_string_t)s);
    int ok = ref(t, w, &wn);
    VCD_CHECK((r != NULL) == ok, "decoding %s, expected %s", r ? "succeeds" : "is rejected", ok ? "success" : "null");
    if (ok) {
        VCD_CHECK(vcd_in_block(r, wn + 1), "the result does not fit its block");
        VCD_CHECK(!memcmp(r, w, wn) && r[wn] == 0, "wrong bytes");
    }
    VCD_CHECK(!memcmp(s, t, l + 1), "the input is modified");
    if (l) {        /* round trip */
        char *e = (char *)str_encode64_ex(raii_init(), (u_string_t)s); char *c = vcd_str(e, strlen(e));
        char *d = (char *)raii_decode64((u_string_t)c);
        VCD_CHECK(d != NULL && !strcmp(d, s), "decoding the encoding does not give the text back"); free(c);
    }
    vcd_check_blocks();
    if (m) raii_delete(m);
    raii_init(); raii_deferred_clean();
    free(s);
}
