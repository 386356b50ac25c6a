/* C10: xor filter membership and false-positive rate */
#include "vh.h"
#include <math.h>
#include "utils/xorfilter.h"
static uint64_t ent;
int getentropy(void *p, size_t n) { unsigned char *q = p; while (n--) { ent = vh_mix(ent + 0x1234567); *q++ = (unsigned char)(ent >> 33); } return 0; }
int main(int argc, char **argv)
{
    vh_init(argc, argv);
    for (uint64_t c = 0; c < vh_cases; c++) {
        if (!vh_begin(c)) continue;
        ent = vr(); size_t n = c == 75 && vh_shard < 3 ? 1048570 + vrn(1500000) : c < 70 ? c : vrp(60) ? 1 + vrn(200) : 1 + vrsz(vrp(5) ? (vh_thorough ? 2000000 : 200000) : 8000); int w16 = (int)vrn(2), style = (int)vrn(6); uint64_t base = vr();
        vh_case("n=%zu %d-bit style=%d", n, w16 ? 16 : 8, style);
        uint64_t *k = malloc(n * 8 + 1);
        for (size_t i = 0; i < n; i++) switch (style) { case 0: k[i] = vh_mix(base + i); break; case 1: k[i] = i; break; case 2: k[i] = (uint64_t)i << 40 | (base & 0xff); break; case 3: k[i] = ~(uint64_t)i; break; case 4: k[i] = i < 64 ? 1ull << i : base + i * 7; break; default: k[i] = base + (uint64_t)i * 0x100000001ull; }
        if (style == 4) { for (size_t i = 64; i < n; i++) while (!(k[i] & (k[i] - 1))) k[i] ^= 3; }
        Xorfilter *x = w16 ? Xorfilter_new16(k, n) : Xorfilter_new8(k, n);
        vh_count("evals", 1);
        if (n == 0) { if (x) vh_viol("xor:empty", "a filter was built from no keys"); free(k); continue; }
        if (!x) { vh_viol("xor:build", "construction failed for %zu keys (style %d)", n, style); free(k); break; }
        for (size_t i = 0; i < n; i++) if (!Xorfilter_contains(x, k[i])) { vh_viol("xor:member", "key %llx (%zu of %zu) not in the filter", (unsigned long long)k[i], i, n); break; }
        uint64_t tr = 20000, pos = 0; for (uint64_t i = 0; i < tr; i++) pos += !!Xorfilter_contains(x, vh_mix(base ^ 0xabcdef) + i * 0x9e3779b97f4a7c15ull);
        double ex = (double)tr / (w16 ? 65536.0 : 256.0); if ((double)pos > ex * (n < 500 ? 6 : 1.5) + 8 * sqrt(ex) + 10) vh_viol("xor:fp-rate", "%llu of %llu absent keys present in a %d-bit filter of %zu keys", (unsigned long long)pos, (unsigned long long)tr, w16 ? 16 : 8, n);
        double bpe = Xorfilter_bpe(x); if (!(bpe > 0)) vh_viol("xor:bpe", "bits per entry %g", bpe);
        if (n > 1000000) vh_count("millions", 1); vh_count("keys", n); vh_sig(vh_h(n, (uint64_t)(style * 2 + w16))); if (c % 97 == 71) vh_sample("n=%zu %d-bit: %llu/%llu false positives, %.1f bits per entry", n, w16 ? 16 : 8, (unsigned long long)pos, (unsigned long long)tr, bpe);
        Xorfilter_delete(x); free(k); if (vh_nviol) break;
    }
    return vh_end();
}
