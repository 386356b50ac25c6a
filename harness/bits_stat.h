/* statistics of random bits: no free bit is biased, no two free bits agree or differ more often than independent ones (7 standard deviations) */
static void vh_bits(const uint8_t *rows, size_t n, size_t w, const uint8_t *fixed, const char *key)
{
    if (n < 200) return;
    size_t W = (n + 63) / 64, nb = w * 8; uint64_t *col = calloc(nb * W, 8);
    for (size_t r = 0; r < n; r++) for (size_t b = 0; b < nb; b++) if (rows[r * w + b / 8] >> (7 - b % 8) & 1) col[b * W + r / 64] |= 1ull << (r % 64);
    double lim = 49.0 * (double)n / 4; uint64_t pairs = 0;
    for (size_t i = 0; i < nb; i++) {
        if (fixed && fixed[i / 8] >> (7 - i % 8) & 1) continue;
        for (size_t j = i; j < nb; j++) {
            if (fixed && fixed[j / 8] >> (7 - j % 8) & 1) continue;
            long d = 0; for (size_t k = 0; k < W; k++) d += __builtin_popcountll(i == j ? col[i * W + k] : col[i * W + k] ^ col[j * W + k]);
            double e = (double)d - (double)n / 2; pairs++;
            if (e * e > lim) { if (i == j) vh_viol(key, "bit %zu is set in %ld of %zu values", i, d, n); else vh_viol(key, "bits %zu and %zu differ in %ld of %zu values", i, j, d, n); free(col); return; }
        }
    }
    vh_count("bit_pairs", pairs); free(col);
}
