/* C20: argument containers.  The argument list is laid out as the x86-64 calling convention does, so any mix of kinds can be generated. */
#include "vcd.h"
#include "raii.h"
int vcd_fork_each = 0;
struct tag { unsigned gp, fp; void *overflow, *reg; };
#define NREG(s) (((raii_array_t *)&(s)->defer)->elements)
#define MAXN 300
void vcd_trial(uint64_t k)
{
    static const char kinds[] = "lzuidcsaxfpq"; size_t n = vcd_below(k % 500 == 77 ? MAXN : vcd_below(4) ? 8 : 40), i, j, gp = 0, fp = 0, ov = 0; char desc[MAXN + 1], txt[MAXN + 1]; uint64_t a[MAXN], over[MAXN + 1]; unsigned char reg[176]; char *str[MAXN]; size_t sl[MAXN];
    memset(txt, 0, sizeof txt); memset(str, 0, sizeof str); memset(reg, 0, sizeof reg);
    int one = vcd_below(3) == 0 ? kinds[vcd_below(12)] : 0;
    for (i = 0; i < n; i++) {
        desc[i] = one ? (char)one : kinds[vcd_below(12)]; a[i] = vcd_below(3) ? vcd_biased() : vcd_rnd();
        if (desc[i] == 's') { char b[600]; sl[i] = vcd_below(2) ? vcd_below(20) : vcd_below(2) ? 256 + vcd_below(40) : vcd_below(599); for (j = 0; j < sl[i]; j++) b[j] = (char)(1 + vcd_below(255)); b[sl[i]] = 0; str[i] = vcd_str(b, sl[i]); a[i] = (uint64_t)str[i]; }
        if (desc[i] == 'f') { if (fp < 8) { memcpy(reg + 48 + 16 * fp++, &a[i], 8); continue; } }
        else if (gp < 6) { memcpy(reg + 8 * gp++, &a[i], 8); continue; }
        over[ov++] = a[i];
    }
    desc[n] = 0; char *d = vcd_str(desc, n); vcd_note("format \"%s\"", desc);
    struct tag t = { 0, 48, over, reg }; va_list ap; memcpy(&ap, &t, sizeof t);
    memory_t *m = vcd_below(2) ? unique_init() : NULL, *o = vcd_below(4) ? NULL : unique_init(); raii_init();
    args_t p = raii_args_ex(m, d, ap);
    VCD_CHECK(p && p->type == RAII_ARGS && p->n_args == n && p->context == m && !p->defer_set, "the container is not set up");
    int acc = (int)vcd_below(6), r;
    for (r = 0; r < 1 + acc; r++) for (i = 0; i < n + 2; i++) {
        long idx = i < n ? (long)i : i == n ? (long)n + (long)vcd_below(3) : -1 - (long)vcd_below(3);
        values_type v = r == 0 && acc ? args_in(p, (size_t)idx) : o ? raii_get_args(o, p, (int)idx) : get_args(p, (int)idx);
        if (idx < 0 || idx >= (long)n) { for (j = 0; j < sizeof v; j++) VCD_CHECK(((char *)&v)[j] == 0, "position %ld is not zero", idx); continue; }
        uint64_t w = a[i]; bool ok = true;
        switch (desc[i]) {
        case 'l': ok = (uint64_t)v.s_long == w; break; case 'z': ok = v.max_size == w; break; case 'd': ok = (uint64_t)v.long_long == w; break;
        case 'u': ok = v.u_int == (uint32_t)w; break; case 'i': ok = v.integer == (int32_t)w; break; case 'c': ok = v.schar == (signed char)w; break;
        case 'f': ok = !memcmp(&v.precision, &w, 8); break;
        case 's': ok = !memcmp(v.char_ptr, str[i], sl[i] + 1) && (v.char_ptr == str[i] || vcd_block_size(v.char_ptr) == sl[i] + 1); break;
        default: ok = v.object == (void *)w;
        }
        VCD_CHECK(ok, "position %ld of kind %c is wrong", idx, desc[i]);
    }
    VCD_CHECK(p->defer_set, "access does not register the container");
    memory_t *at = o ? o : m ? m : raii_init();
    VCD_CHECK(NREG(at) == 1, "the container is registered %zu times", NREG(at));
    (void)k;
    if (o) raii_delete(o);
    if (m) raii_delete(m);
    raii_deferred_clean();
    vcd_check_blocks(); vcd_leaks("blocks of the container");
    args_t q = vcd_below(2) ? args_for("dsf", (int64_t)7, d, 2.5) : raii_args_for(NULL, "dsf", (int64_t)7, d, 2.5);
    VCD_CHECK(args_in(q, 0).long_long == 7 && !strcmp(args_in(q, 1).char_ptr, d) && args_in(q, 2).precision == 2.5 && q->n_args == 3, "variadic construction");
    values_type z = raii_value(NULL); for (i = 0; i < sizeof z; i++) VCD_CHECK(((char *)&z)[i] == 0, "value of null");
    VCD_CHECK(get_arg(&q->args[2]).precision == 2.5, "value of an element");
    args_free(q); vcd_leaks("blocks after args_free");
    for (i = 0; i < n; i++) free(str[i]); free(d);
}
