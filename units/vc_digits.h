/* Ghost decimal representation of a 64-bit value: D[k] digit of weight 10^k, W[k] = W[0] / 10^k.
 * C division and remainder of a W[k] by 10 or 100 are given by definition of the representation
 * (every value has exactly one); of anything else they are left to the verifier. */
static uint64_t D[24], W[24];
static void vc_digits(void)
{
    int i;
    for (i = 0; i < 24; i++) D[i] = 0, W[i] = 0;
    for (i = 0; i < 20; i++) { D[i] = nd_u8(); ASSUME(D[i] <= 9); W[i] = nd_u64(); }
    for (i = 19; i >= 0; i--) {
        ASSUME(W[i + 1] <= UINT64_MAX / 10);
        ASSUME(W[i] == W[i + 1] * 10 + D[i] && W[i] >= W[i + 1] * 10);
    }
}
static uint64_t vc_div(uint64_t x, uint64_t c)
{
    int i;
    for (i = 0; i <= 20; i++) {
        if (x == W[i] && c == 100) return W[i + 2];
        if (x == W[i] && c == 10) return W[i + 1];
    }
    CHECK(c != 0, "division by zero");
    return x / c;
}
static uint64_t vc_mod(uint64_t x, uint64_t c)
{
    int i;
    for (i = 0; i <= 20; i++) {
        if (x == W[i] && c == 100) return D[i] + 10 * D[i + 1];
        if (x == W[i] && c == 10) return D[i];
    }
    CHECK(c != 0, "division by zero");
    return x % c;
}
static int vc_ndigits(void)
{ int i, n = 1; for (i = 0; i < 20; i++) if (D[i]) n = i + 1; return n; }
