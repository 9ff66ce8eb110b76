/* spec functions: value denoted by n digits (Horner), mod 2^64; dec_fits: it fits 64 bits */
static uint64_t dec_value(const char *s, int n)
{ uint64_t v = 0; int i; for (i = 0; i < n; i++) v = v * 10 + (uint64_t)(unsigned char)(s[i] - '0'); return v; }
static int dec_fits(const char *s, int n)
{ /* n <= 20, compared with the digits of 2^64-1 */
    static const char m[] = "18446744073709551615"; int i;
    if (n < 20) return 1;
    for (i = 0; i < 20; i++) { if (s[i] < m[i]) return 1; if (s[i] > m[i]) return 0; }
    return 1; }
static int hex_digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static uint64_t hex_value(const char *s, int n)
{ uint64_t v = 0; int i; for (i = 0; i < n; i++) v = v * 16 + (uint64_t)hex_digit(s[i]); return v; }
